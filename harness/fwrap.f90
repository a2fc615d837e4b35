! Calls the library through its Fortran module.
module fwrap
  use engpar
  implicit none
contains
  function f_empty() result(g) bind(C)
    type(c_ptr) :: g
    g = cengpar_createEmptyGraph()
  end function
  subroutine f_destroy(g) bind(C)
    type(c_ptr), value :: g
    call cengpar_destroyGraph(g)
  end subroutine
  subroutine f_verts(g, hg, v, w, n) bind(C)
    type(c_ptr), value :: g
    logical(c_bool), value :: hg
    integer(c_int), value :: n
    integer(ENGPAR_GID_T) :: v(n)
    real(ENGPAR_WGT_T) :: w(n)
    call cengpar_constructVerts(g, hg, v, w, n)
  end subroutine
  function f_edges(g, e, d, w, p, ne, np) result(t) bind(C)
    type(c_ptr), value :: g
    integer(c_int), value :: ne, np
    integer(ENGPAR_GID_T) :: e(ne), p(np)
    integer(ENGPAR_LID_T) :: d(ne)
    real(ENGPAR_WGT_T) :: w(ne)
    integer(c_int) :: t
    t = cengpar_constructEdges(g, e, d, w, p, ne, np)
  end function
  subroutine f_ghosts(g, v, o, n) bind(C)
    type(c_ptr), value :: g
    integer(c_int), value :: n
    integer(ENGPAR_GID_T) :: v(n)
    integer(ENGPAR_PART_T) :: o(n)
    call cengpar_constructGhosts(g, v, o, n)
  end subroutine
  subroutine f_valid(g) bind(C)
    type(c_ptr), value :: g
    call cengpar_checkValidity(g)
  end subroutine
  subroutine f_getpart(g, v, p, n) bind(C)
    type(c_ptr), value :: g
    integer(c_int), value :: n
    integer(ENGPAR_GID_T) :: v(n)
    integer(ENGPAR_PART_T) :: p(n)
    call cengpar_getPartition(g, v, p, n)
  end subroutine
  subroutine f_load(g, s) bind(C)
    type(c_ptr), value :: g
    character(c_char) :: s(*)
    call cengpar_loadFromFile(g, s)
  end subroutine
  subroutine f_save(g, s) bind(C)
    type(c_ptr), value :: g
    character(c_char) :: s(*)
    call cengpar_saveToFile(g, s)
  end subroutine
  subroutine f_eval(g) bind(C)
    type(c_ptr), value :: g
    call cengpar_evaluatePartition(g)
  end subroutine
  function f_dinput(g, sf) result(in) bind(C)
    type(c_ptr), value :: g
    real(c_double), value :: sf
    type(c_ptr) :: in
    in = cengpar_createDiffusiveInput(g, sf)
  end function
  subroutine f_prio(in, t, tol) bind(C)
    type(c_ptr), value :: in
    integer(c_int), value :: t
    real(c_double), value :: tol
    integer(ENGPAR_EDGE_T) :: tt
    tt = int(t, ENGPAR_EDGE_T)
    call cengpar_addPriority(in, tt, tol)
  end subroutine
  subroutine f_cut(in, x) bind(C)
    type(c_ptr), value :: in
    real(c_double), value :: x
    call cengpar_setCutGrowthFactor(in, x)
  end subroutine
  subroutine f_bghosts(in, e) bind(C)
    type(c_ptr), value :: in
    logical(c_bool), value :: e
    call cengpar_balanceGhosts(in, e)
  end subroutine
  subroutine f_balance(in, v) bind(C)
    type(c_ptr), value :: in
    integer(c_int), value :: v
    call cengpar_balance(in, v)
  end subroutine
  function f_lsplit(g, sc, lc, orig, f, tol, ranks, t) result(in) bind(C)
    type(c_ptr), value :: g
    integer(c_int), value :: sc, lc, f, t
    logical(c_bool), value :: orig
    real(c_double), value :: tol
    integer(ENGPAR_PART_T) :: ranks(f)
    type(c_ptr) :: in
    integer(ENGPAR_EDGE_T) :: tt
    tt = int(t, ENGPAR_EDGE_T)
    in = cengpar_createLocalSplitInput(g, sc, lc, orig, f, tol, ranks, tt)
  end function
  function f_gsplit(g, sc, lc, orig, tol, t) result(in) bind(C)
    type(c_ptr), value :: g
    integer(c_int), value :: sc, lc, t
    logical(c_bool), value :: orig
    real(c_double), value :: tol
    type(c_ptr) :: in
    integer(ENGPAR_EDGE_T) :: tt
    tt = int(t, ENGPAR_EDGE_T)
    in = cengpar_createGlobalSplitInput(g, sc, lc, orig, tol, tt)
  end function
  subroutine f_split(in, s) bind(C)
    type(c_ptr), value :: in
    character(c_char) :: s(*)
    call cengpar_split(in, s)
  end subroutine
  subroutine f_comm(c) bind(C)
    integer(c_int), value :: c
    call cengpar_setftncommunicator(c)
  end subroutine
  subroutine f_init() bind(C)
    call cengpar_initialize()
  end subroutine
  subroutine f_final() bind(C)
    call cengpar_finalize()
  end subroutine
end module
