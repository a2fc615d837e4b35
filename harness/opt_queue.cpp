// Selection queues (an internal interface of the balancer).
#include "worker.h"
#include <engpar.h>
#include <engpar_diffusive_input.h>
#include <engpar_queue.h>
using namespace agi;
OP(queue) {
  Ngraph* g = G(a.i()); std::string k = a.str();
  engpar::Queue* q;
  if (k == "iter") q = engpar::createIterationQueue(g);
  else {
    engpar::DiffusiveInput* in = engpar::createDiffusiveInput(g, 0.1);
    in->bfsPush = k == "push";
    q = engpar::createDistanceQueue(in);
    delete in;
  }
  out.f("q");
  q->startIteration();
  for (engpar::Queue::iterator i = q->begin(); i != q->end(); ++i) out.f(" %lld", (long long)g->localID(q->get(i)));
  out.f("\n");
  delete q;
}
