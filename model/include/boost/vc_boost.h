#ifndef VC_BOOST
#define VC_BOOST
#include "iostream"
#include "memory"
namespace boost { using std::shared_ptr;
namespace log { namespace sinks { struct sink {}; struct text_ostream_backend {}; } namespace sources {} namespace keywords {}
struct core { static core *get() { static core c; return &c; } void remove_sink(shared_ptr<sinks::sink>) {} };
inline shared_ptr<sinks::sink> add_console_log(std::ostream&) { return shared_ptr<sinks::sink>(new sinks::sink); }
inline shared_ptr<sinks::sink> add_file_log(std::string) { return shared_ptr<sinks::sink>(new sinks::sink); } } }
#define BOOST_LOG_TRIVIAL(l) std::cerr
#endif
