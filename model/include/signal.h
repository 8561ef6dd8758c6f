#ifndef VC_SIGNAL
#define VC_SIGNAL
#define SIGINT 2
extern "C" int raise(int);
#endif
