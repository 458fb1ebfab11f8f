// Analysis translation unit: exactly what src/crab.cpp compiles, plus instantiations of the templates the library only
// offers to its users (integer_cast and friends) and of implicit destructors nobody in the library calls, so that they
// have bodies to analyse.
#include CRAB_REPO_SRC

namespace crabsa_witness {
template<class T>
void destroy(T *p) {
	p->~T();
}
template<class T>
void create(T *p) {
	new (p) T;
}
template void create(crab::md5 *);
template void create(crab::sha1 *);

template void destroy(crab::UDPTransmitter *);
template void destroy(crab::UDPReceiver *);
template void destroy(crab::TCPSocket *);
template void destroy(crab::TCPAcceptor *);
template void destroy(crab::Signal *);
template void destroy(crab::RunLoop *);
template void destroy(crab::Thread *);
template void destroy(crab::Idle *);
template void destroy(crab::DNSResolver *);
template void destroy(crab::BufferedTCPSocket *);
template void destroy(crab::http::ClientConnection *);
template void destroy(crab::http::ServerConnection *);
template void destroy(crab::http::ClientRequestSimple *);
template void destroy(crab::http::Server *);

// what the type system says about resources and linked objects; read by the analysis from the constant initialisers
extern const bool copyable_FileDescriptor, copyable_TCPSocket, copyable_Timer, copyable_Watcher, copyable_Idle, copyable_Callable, copyable_HeapIndex;
const bool copyable_FileDescriptor = std::is_copy_constructible<crab::details::FileDescriptor>::value || std::is_copy_assignable<crab::details::FileDescriptor>::value;
const bool copyable_TCPSocket      = std::is_copy_constructible<crab::TCPSocket>::value || std::is_copy_assignable<crab::TCPSocket>::value;
const bool copyable_Timer          = std::is_copy_constructible<crab::Timer>::value || std::is_copy_assignable<crab::Timer>::value;
const bool copyable_Watcher        = std::is_copy_constructible<crab::Watcher>::value || std::is_copy_assignable<crab::Watcher>::value;
const bool copyable_Idle           = std::is_copy_constructible<crab::Idle>::value || std::is_copy_assignable<crab::Idle>::value;
const bool copyable_Callable       = std::is_copy_constructible<crab::Callable>::value || std::is_copy_assignable<crab::Callable>::value;
const bool copyable_HeapIndex      = std::is_copy_constructible<crab::IntrusiveHeapIndex>::value || std::is_copy_assignable<crab::IntrusiveHeapIndex>::value;
}  // namespace crabsa_witness
