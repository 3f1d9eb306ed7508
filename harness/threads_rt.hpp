// Interface between the instrumented operations (threads_ops.cpp) and the
// scheduler and race detector (threads_rt.cpp).
#ifndef THREADS_RT_HPP
#define THREADS_RT_HPP
#include <string>
void out(long double x);                 // a result that must equal the sequential one
void out(const std::string &s);
void out_id(long id);                    // an id: positive and unlike any other one given here
struct ThreadOp { const char *name; void (*run)(); bool creates; };
extern const ThreadOp OPS[];
extern const int NOPS;
void prepare(int how);                   // makes the shared variables: 0 independent only, 1 computed ones too
#endif
