"""(property, "bad"|"ok", name, [(file under include/crab, old text, new text), ...])"""
RP, SP = "http/request_parser.hxx", "http/response_parser.hxx"
NP, N, NB, C = "network_posix.hxx", "network.hxx", "network_base.hpp", "http/connection.hxx"
M = [
    ("C01", "bad", "c01-run-unlink-after", [(N, "callable.triggered_callables_node.unlink();\n\t\t\tcallable.handler();", "callable.handler();\n\t\t\tcallable.triggered_callables_node.unlink();")]),
    ("C01", "bad", "c01-dns-after", [(N, "\tdns_handler(result);", "\tdns_handler(result);\n\tresolving = false;")]),
    ("C01", "bad", "c01-shutdown-timer", [(C, "\tclose();\n\trwd_handler();\n}\n\nnamespace http", "\trwd_handler();\n\tclose();\n}\n\nnamespace http")]),
    ("C01", "bad", "c01-timer-after", [(N, "timer.a_handler();\n\t\t\treturn true;", "timer.a_handler();\n\t\t\tif (timer.fire_time > now) return false;\n\t\t\treturn true;")]),
    ("C01", "bad", "c01-idle-after", [(N, "idle_handlers.push_back(idle);\n\t\t\t\tidle.a_handler();", "idle.a_handler();\n\t\t\t\tidle_handlers.push_back(idle);")]),
    ("C01", "bad", "c01-srv-sock", [(C, "\tif (is_writing_body()) {\n\t\trwd_handler();  // So body streaming will work", "\tif (is_writing_body()) {\n\t\trwd_handler();\n\t\tif (is_writing_body()) return;")]),
    ("C01", "ok", "c01-helper", [(C, "CRAB_INLINE void BufferedTCPSocket::shutdown_timer_handler() {\n\tclose();\n\trwd_handler();", "static void fire(Handler &h) { h(); }\nCRAB_INLINE void BufferedTCPSocket::shutdown_timer_handler() {\n\tclose();\n\tfire(rwd_handler);")]),
    ("C02", "bad", "c02-close", [(NP, "\t\trwd_handler.add_pending_callable(true, false);\n#endif\n\t}\n}", "\t\tif (rwd_handler.can_write) rwd_handler.handler(); else rwd_handler.add_pending_callable(true, false);\n#endif\n\t}\n}")]),
    ("C02", "bad", "c02-dns", [(N, "\tcancel();\n\tauto &w         = details::DNSWorker::get_instance();\n\tresolving       = true;", "\tcancel();\n\tif (host_name.empty()) { dns_handler({}); return; }\n\tauto &w         = details::DNSWorker::get_instance();\n\tresolving       = true;")]),
    ("C02", "bad", "c02-timer", [(N, "CRAB_INLINE void Timer::once_at(steady_clock::time_point time_point) {", "CRAB_INLINE void Timer::once_at(steady_clock::time_point time_point) {\n\tif (time_point == steady_clock::time_point::min()) { a_handler(); return; }")]),
    ("C03", "bad", "c03-cancel-callable", [(NP, "\trwd_handler.cancel_callable();\n\tfd.reset();\n\tif (with_event)", "\tif (with_event)\n\t\trwd_handler.cancel_callable();\n\tfd.reset();\n\tif (with_event)")]),
    ("C03", "bad", "c03-watcher", [(N, "\ta_handler.cancel_callable();\n\tloop->links.cancel_called_watcher(this);", "\tif (a_handler.is_pending_callable()) a_handler.cancel_callable();\n\telse loop->links.cancel_called_watcher(this);")]),
    ("C03", "bad", "c03-dns-exec", [(N, "\tif (w.executing_request == this)\n\t\tw.executing_request = nullptr;\n\twork_queue_node.unlink();", "\tif (w.executing_request == this && !names.empty())\n\t\tw.executing_request = nullptr;\n\twork_queue_node.unlink();")]),
    ("C03", "bad", "c03-dns-other", [(N, "\tif (w.executing_request == this)\n\t\tw.executing_request = nullptr;", "\tw.executing_request = nullptr;")]),
    ("C03", "bad", "c03-dns-ab", [(N, "\twork_queue_node.unlink();\n\tab.cancel();", "\tif (work_queue_node.in_list()) work_queue_node.unlink(); else\n\tab.cancel();")]),
    ("C03", "bad", "c03-buffered-timer", [(C, "\tshutdown_timer.cancel();\n\tdata_to_write.clear();", "\tif (!sock.is_open()) return;\n\tdata_to_write.clear();\n\tif (write_shutdown_asked) shutdown_timer.cancel();")]),
    ("C03", "bad", "c03-srv-ping", [(C, "\tread_buffer.clear();\n\twm_ping_timer.cancel();\n", "\tread_buffer.clear();\n\tif (is_state_websocket() && !writing_web_message_body) wm_ping_timer.cancel();\n")]),
    ("C03", "bad", "c03-connect-pending", [(NP, "\t\tint connect_result = ::connect(tmp.get_value(), address.impl_get_sockaddr(), address.impl_get_sockaddr_length());\n\t\tif (connect_result < 0 && errno != EINPROGRESS)\n\t\t\treturn false;", "\t\tint connect_result = ::connect(tmp.get_value(), address.impl_get_sockaddr(), address.impl_get_sockaddr_length());\n\t\tif (connect_result >= 0) rwd_handler.add_pending_callable(true, true);\n\t\tif (connect_result < 0 && errno != EINPROGRESS)\n\t\t\treturn false;")]),
    ("C03", "ok", "c03-order", [(N, "\ta_handler.cancel_callable();\n\tloop->links.cancel_called_watcher(this);", "\tloop->links.cancel_called_watcher(this);\n\ta_handler.cancel_callable();")]),
    ("C03", "ok", "c03-timer-guard", [(N, "CRAB_INLINE void Timer::cancel() { RunLoop", "CRAB_INLINE void Timer::cancel() { if (!is_set()) return;\n RunLoop")]),
    ("C06", "bad", "c06-count", [(NP, "\tRunLoop::current()->stats.RECV_size += result;\n\treturn result;\n}\n\nCRAB_INLINE size_t TCPSocket::read_some(uint8_t *val, size_t count, uint8_t", "\tRunLoop::current()->stats.RECV_size += result;\n\treturn count;\n}\n\nCRAB_INLINE size_t TCPSocket::read_some(uint8_t *val, size_t count, uint8_t")]),
    ("C06", "bad", "c06-iov-order", [(NP, "iovec[iovec_count].iov_len  = count2;", "iovec[iovec_count].iov_len  = count;")]),
    ("C06", "bad", "c06-eof-noevent", [(NP, "\tssize_t result = ::recvmsg(fd.get_value(), &msg, details::CRAB_MSG_NOSIGNAL);\n\tRunLoop::current()->stats.push_record(\"R(recv)\", fd.get_value(), int(result));\n\tif (result == 0) {  // remote closed\n\t\tclose(true);", "\tssize_t result = ::recvmsg(fd.get_value(), &msg, details::CRAB_MSG_NOSIGNAL);\n\tRunLoop::current()->stats.push_record(\"R(recv)\", fd.get_value(), int(result));\n\tif (result == 0) {  // remote closed\n\t\tclose();")]),
    ("C06", "bad", "c06-econnreset", [(NP, "\tssize_t result = ::send(fd.get_value(), data, count, details::CRAB_MSG_NOSIGNAL);\n\tRunLoop::current()->stats.push_record(\"R(send)\", fd.get_value(), int(result));\n\tif (result < 0) {\n\t\tif (errno != EAGAIN && errno != EWOULDBLOCK) {", "\tssize_t result = ::send(fd.get_value(), data, count, details::CRAB_MSG_NOSIGNAL);\n\tRunLoop::current()->stats.push_record(\"R(send)\", fd.get_value(), int(result));\n\tif (result < 0) {\n\t\tif (errno != EAGAIN && errno != EPIPE) {")]),
    ("C06", "ok", "c06-helper", [(NP, "\t\tif (errno != EAGAIN && errno != EWOULDBLOCK) {  // some REAL error\n\t\t\tclose(true);\n\t\t\treturn 0;\n\t\t}\n\t\trwd_handler.can_read = false;", "\t\tconst int err = errno;\n\t\tif (!(err == EAGAIN || err == EWOULDBLOCK)) {  // some REAL error\n\t\t\tclose(true);\n\t\t\treturn 0;\n\t\t}\n\t\trwd_handler.can_read = false;")]),
    ("C04", "bad", "c04-earlier", [(N, "if (is_set() && time_point >= fire_time) {", "if (is_set()) {")]),
    ("C04", "ok", "c04-vs-moved", [(N, "if (is_set() && time_point >= fire_time) {", "if (is_set() && time_point >= moved_fire_time) {")]),
    ("C04", "bad", "c04-moved-strict", [(N, "if (timer.moved_fire_time > now) {", "if (timer.moved_fire_time > timer.fire_time && timer.fire_time == now) {")]),
    ("C04", "bad", "c04-round", [(N, "timeout_ms = 1 + static_cast<int>(std::chrono", "timeout_ms = 2 + static_cast<int>(std::chrono")]),
    ("C04", "bad", "c04-once-clamp", [(N, "if (delay.count() >= max_delay_seconds)", "if (delay.count() > max_delay_seconds + 1)")]),
    ("C04", "bad", "c04-once-dbl", [(N, "if (fsc >= double(max_delay_seconds))", "if (fsc >= double(ma.time_since_epoch().count()))")]),
    ("C04", "bad", "c04-clock", [(N, "\t\t}\n\t\tlinks.now = steady_clock::now();\n\t\t// Runloop", "\t\t\tlinks.now = steady_clock::now();\n\t\t}\n\t\t// Runloop")]),
    ("C04", "ok", "c04-sleepmax", [(N, "if (timer.fire_time >= now_plus_max_sleep)", "if (timer.moved_fire_time > now_plus_max_sleep)")]),
    ("C04", "bad", "c04-assign", [(N, "moved_fire_time = fire_time = time_point;", "fire_time = time_point;")]),
    ("C04", "bad", "c04-pollms", [(N, "step(timeout_ms);  // Just waiting", "step(timeout_ms < 5 ? 5 : timeout_ms);  // Just waiting")]),
    ("C04", "ok", "c04-local", [(N, "\t\tif (timer.fire_time <= now) {\n\t\t\tactive_timers.pop_front();", "\t\tconst bool due = !(now < timer.fire_time);\n\t\tif (due) {\n\t\t\tactive_timers.erase(timer);")]),
    ("C04", "ok", "c04-cancel", [(N, "\t\tRunLoop::current()->links.active_timers.erase(*this);\n\t\tmoved_fire_time = fire_time", "\t\tcancel();\n\t\tmoved_fire_time = fire_time")]),
    ("C05", "bad", "c05-epollerr", [(NP, "EPOLLIN | EPOLLERR | EPOLLHUP | EPOLLRDHUP;", "EPOLLIN | EPOLLERR | EPOLLRDHUP;")]),
    ("C05", "bad", "c05-level", [(NP, "(read ? EPOLLIN : EPOLLET) | (write ? EPOLLOUT : EPOLLET) | EPOLLET;", "(read ? EPOLLIN : EPOLLET) | (write ? EPOLLOUT : 0u);")]),
    ("C05", "bad", "c05-flag-err", [(NP, "\t\trw_handler.can_read = false;\n\t\t\treturn {};  // Will fire on_epoll_call in future automatically\n\t\t}\n\t\tif (errno != EMSGSIZE) {", "\t\t\treturn {};  // Will fire on_epoll_call in future automatically\n\t\t}\n\t\trw_handler.can_read = false;\n\t\tif (errno != EMSGSIZE) {")]),
    ("C05", "bad", "c05-shortwrite", [(NP, "\tRunLoop::current()->stats.SEND_size += result;\n\treturn result;\n}\n\nCRAB_INLINE size_t TCPSocket::write_some(std::deque", "\tif (size_t(result) < count)\n\t\trwd_handler.can_write = false;\n\tRunLoop::current()->stats.SEND_size += result;\n\treturn result;\n}\n\nCRAB_INLINE size_t TCPSocket::write_some(std::deque")]),
    ("C05", "bad", "c05-emfile", [(NP, "errno == ECONNABORTED || errno == EPERM || errno == EINTR", "errno == ECONNABORTED || errno == EPERM || errno == EINTR || errno == ENOBUFS")]),
    ("C05", "bad", "c05-noretry", [(NP, "\t\t\t\tfd_limit_timer.once(1);\n\t\t\t\treturn false;", "\t\t\t\tif (errno != ENOMEM)\n\t\t\t\t\tfd_limit_timer.once(1);\n\t\t\t\treturn false;")]),
    ("C05", "bad", "c05-acc-reg", [(NP, "impl_add_callable_fd(tmp.get_value(), &a_handler, true, false);\n#endif\n\tfd.swap(tmp);", "impl_add_callable_fd(tmp.get_value(), &a_handler, false, true);\n#endif\n\tfd.swap(tmp);")]),
    ("C05", "bad", "c05-lastevent", [(NP, "for (int i = 0; i != n; ++i) {\n\t\tauto &ev               = events[i];", "for (int i = 0; i < n - n / 3; ++i) {\n\t\tauto &ev               = events[i];")]),
    ("C05", "bad", "c05-overwrite", [(N, "CRAB_INLINE void Callable::add_pending_callable(bool can_read, bool can_write) {\n\tthis->can_read  = this->can_read || can_read;\n\tthis->can_write = this->can_write || can_write;\n\tRunLoop", "CRAB_INLINE void Callable::add_pending_callable(bool can_read, bool can_write) {\n\tthis->can_read  = this->can_read || can_read;\n\tthis->can_write = can_write;\n\tRunLoop")]),
    ("C05", "ok", "c05-refac", [(NP, "\t\tif (errno == EAGAIN || errno == EWOULDBLOCK) {\n#if CRAB_IMPL_LIBEV\n\t\t\tio_write.start(fd.get_value(), ev::WRITE);", "\t\tconst auto e = errno;\n\t\tconst bool blocked = e == EAGAIN;\n\t\tif (blocked) {\n#if CRAB_IMPL_LIBEV\n\t\t\tio_write.start(fd.get_value(), ev::WRITE);")]),
    ("C05", "ok", "c05-mask", [(NP, "const uint32_t events = (read ? EPOLLIN : EPOLLET) | (write ? EPOLLOUT : EPOLLET) | EPOLLET;", "uint32_t events = EPOLLET;\n\tif (read)\n\t\tevents |= EPOLLIN;\n\tif (write)\n\t\tevents |= EPOLLOUT;")]),
    ("C05", "ok", "c05-rangefor", [(NP, "for (int i = 0; i != n; ++i) {\n\t\tauto &ev               = events[i];", "for (int i = 0; i < n; i++) {\n\t\tconst epoll_event ev               = events[i];")]),
    ("C07", "bad", "c07-fdzero", [(NP, "CRAB_INLINE void FileDescriptor::reset(int new_value) {\n\tif (is_valid())", "CRAB_INLINE void FileDescriptor::reset(int new_value) {\n\tif (value > 0)")]),
    ("C07", "bad", "c07-early-swap", [(NP, "\t\tfd.swap(tmp);\n\t\treturn true;", "\t\tint raw = tmp.get_value();\n\t\tdetails::FileDescriptor tmp2(raw);\n\t\tfd.swap(tmp2);\n\t\treturn true;")]),
    ("C07", "bad", "c07-accept-throw", [(NP, "\t\tclose(true);\n\t\treturn;\n\t}\n#endif\n}", "\t\tacceptor.accepted_fd.reset(fd.get_value());\n\t\tclose(true);\n\t\treturn;\n\t}\n#endif\n}")]),
    ("C07", "bad", "c07-raw-socket", [(NP, "\tdetails::FileDescriptor tmp(\n\t    ::socket(address.impl_get_sockaddr()->sa_family, SOCK_DGRAM, IPPROTO_UDP), \"crab::UDPReceiver socket() failed\");\n\tif (settings.sndbuf_size)\n\t\tdetails::setsockopt_int(tmp.get_value(), SOL_SOCKET, SO_SNDBUF, integer_cast<int>(settings.sndbuf_size));", "\tconst int raw = ::socket(address.impl_get_sockaddr()->sa_family, SOCK_DGRAM, IPPROTO_UDP);\n\tif (settings.sndbuf_size)\n\t\tdetails::setsockopt_int(raw, SOL_SOCKET, SO_SNDBUF, integer_cast<int>(settings.sndbuf_size));\n\tdetails::FileDescriptor tmp(raw, \"crab::UDPReceiver socket() failed\");")]),
    ("C07", "bad", "c07-close-keeps", [(NP, "\trwd_handler.cancel_callable();\n\tfd.reset();\n\tif (with_event) {", "\trwd_handler.cancel_callable();\n\tif (with_event && fd.is_valid())\n\t\t::close(fd.get_value());\n\telse\n\t\tfd.reset();\n\tif (with_event) {")]),
    ("C07", "ok", "c07-helper", [(NP, "\tfd.reset(signalfd(-1, &mask, 0));\n\tdetails::check(fd.get_value() >= 0, \"crab::Signal signalfd failed\");\n\tdetails::set_nonblocking(fd.get_value());", "\tdetails::FileDescriptor tmp(signalfd(-1, &mask, 0));\n\tfd.swap(tmp);\n\tdetails::check(fd.is_valid(), \"crab::Signal signalfd failed\");\n\tdetails::set_nonblocking(fd.get_value());")]),
    ("C08", "bad", "c08-accept", [(NP, "::accept4(fd.get_value(), in_addr.impl_get_sockaddr(), &in_len, SOCK_NONBLOCK)", "::accept4(fd.get_value(), in_addr.impl_get_sockaddr(), &in_len, 02000000)")]),
    ("C08", "bad", "c08-flags", [(NP, "\tflags |= O_NONBLOCK;", "\tflags ^= O_NONBLOCK;")]),
    ("C08", "bad", "c08-order", [(NP, "\t\tdetails::set_nonblocking(tmp.get_value());\n\t\tint connect_result = ::connect(tmp.get_value(), address.impl_get_sockaddr(), address.impl_get_sockaddr_length());", "\t\tint connect_result = ::connect(tmp.get_value(), address.impl_get_sockaddr(), address.impl_get_sockaddr_length());\n\t\tdetails::set_nonblocking(tmp.get_value());")]),
    ("C08", "bad", "c08-sigpipe", [(NP, "ssize_t result = ::sendmsg(fd.get_value(), &msg, details::CRAB_MSG_NOSIGNAL);", "ssize_t result = ::sendmsg(fd.get_value(), &msg, count ? details::CRAB_MSG_NOSIGNAL : 0);")]),
    ("C08", "bad", "c08-eventfd", [(NP, "wake_fd(eventfd(0, EFD_NONBLOCK))", "wake_fd(eventfd(0, 0))")]),
    ("C08", "bad", "c08-resolve", [(N, "\tcancel();\n\tauto &w         = details::DNSWorker::get_instance();\n\tresolving       = true;", "\tcancel();\n\tif (host_name == \"localhost\") { names = sync_resolve(host_name, port, ipv4, ipv6); ab.call(); resolving = true; return; }\n\tauto &w         = details::DNSWorker::get_instance();\n\tresolving       = true;")]),
    ("C08", "ok", "c08-sock", [(NP, "SOCK_STREAM, IPPROTO_TCP), \"crab::connect socket() failed\");", "SOCK_STREAM | SOCK_NONBLOCK, IPPROTO_TCP), \"crab::connect socket() failed\");"), (NP, "\t\tdetails::set_nonblocking(tmp.get_value());\n\t\tint connect_result", "\t\tint connect_result")]),
    # ---- C09
    ("C09", "bad", "c09-push-nolock", [(N, "CRAB_INLINE void RunLoopLinks::call_watcher(Watcher *watcher) {\n\tstd::unique_lock<std::mutex> lock(mutex);\n\tfired_objects.push_back(*watcher);", "CRAB_INLINE void RunLoopLinks::call_watcher(Watcher *watcher) {\n\tif (watcher->fired_objects_node.in_list())\n\t\treturn;\n\tstd::unique_lock<std::mutex> lock(mutex);\n\tfired_objects.push_back(*watcher);")]),
    ("C09", "bad", "c09-cancel-curloop", [(N, "\ta_handler.cancel_callable();\n\tloop->links.cancel_called_watcher(this);", "\ta_handler.cancel_callable();\n\tRunLoop::current()->links.cancel_called_watcher(this);")]),
    ("C09", "bad", "c09-trigger-unlocked", [(N, "\tstd::unique_lock<std::mutex> lock(mutex);\n\twhile (!fired_objects.empty()) {", "\twhile (!fired_objects.empty()) {\n\t\tstd::unique_lock<std::mutex> lock(mutex);")]),
    ("C09", "bad", "c09-plain-quit", [("network.hpp", "std::atomic<bool> quit{false};", "bool quit{false};")]),
    ("C09", "bad", "c09-current", [(N, "\tmy_loop->wakeup();", "\tif (my_loop != RunLoop::current())\n\t\tmy_loop->wakeup();")]),
    ("C09", "bad", "c09-stats", [(N, "\tlinks.quit = true;\n\twakeup();", "\tlinks.quit = true;\n\tstats.EPOLL_count += 1;\n\twakeup();")]),
    ("C09", "bad", "c09-uaf", [(N, "\tmy_loop->wakeup();", "\tloop->wakeup();")]),
    ("C09", "bad", "c09-names", [(N, "\tdns_handler(result);", "\tnames = result;\n\tdns_handler(names);")]),
    ("C09", "bad", "c09-resolve-late", [(N, "\tauto &w         = details::DNSWorker::get_instance();\n\tresolving       = true;\n\tthis->host_name = host_name;\n\tthis->port      = port;\n\tthis->ipv4      = ipv4;\n\tthis->ipv6      = ipv6;\n\tstd::unique_lock<std::mutex> lock(w.dns_mutex);\n\tw.work_queue.push_back(*this);\n\tw.cond.notify_one();", "\tauto &w         = details::DNSWorker::get_instance();\n\tresolving       = true;\n\tthis->host_name = host_name;\n\t{\n\t\tstd::unique_lock<std::mutex> lock(w.dns_mutex);\n\t\tw.work_queue.push_back(*this);\n\t\tw.cond.notify_one();\n\t}\n\tthis->port      = port;\n\tthis->ipv4      = ipv4;\n\tthis->ipv6      = ipv6;")]),
    ("C09", "bad", "c09-cancel-check", [(N, "\tauto &w = details::DNSWorker::get_instance();\n\tstd::unique_lock<std::mutex> lock(w.dns_mutex);\n\tif (w.executing_request == this)", "\tauto &w = details::DNSWorker::get_instance();\n\tif (!work_queue_node.in_list() && w.executing_request != this) {\n\t\tab.cancel();\n\t\tresolving = false;\n\t\treturn;\n\t}\n\tstd::unique_lock<std::mutex> lock(w.dns_mutex);\n\tif (w.executing_request == this)")]),
    ("C09", "bad", "c09-thread-cancel", [(N, "\tstd::unique_lock<std::mutex> lock(mu);\n\tif (run_loop_ptr)\n\t\trun_loop_ptr->cancel();", "\tif (!run_loop_ptr)\n\t\treturn;\n\tstd::unique_lock<std::mutex> lock(mu);\n\tif (run_loop_ptr)\n\t\trun_loop_ptr->cancel();")]),
    ("C09", "bad", "c09-worker-copy", [(N, "\t\t\t\texecuting_request->work_queue_node.unlink();\n\t\t\t\thost_name = std::move(executing_request->host_name);\n\t\t\t\tport      = executing_request->port;\n\t\t\t\tipv4      = executing_request->ipv4;\n\t\t\t\tipv6      = executing_request->ipv6;\n\t\t\t}", "\t\t\t\texecuting_request->work_queue_node.unlink();\n\t\t\t\thost_name = std::move(executing_request->host_name);\n\t\t\t\tport      = executing_request->port;\n\t\t\t}\n\t\t\tipv4 = executing_request->ipv4;\n\t\t\tipv6 = executing_request->ipv6;")]),
    ("C09", "ok", "c09-guard", [(N, "CRAB_INLINE void RunLoopLinks::call_watcher(Watcher *watcher) {\n\tstd::unique_lock<std::mutex> lock(mutex);\n\tfired_objects.push_back(*watcher);", "CRAB_INLINE void RunLoopLinks::call_watcher(Watcher *watcher) {\n\tstd::lock_guard<std::mutex> guard(mutex);\n\tif (!watcher->fired_objects_node.in_list())\n\t\tfired_objects.push_back(*watcher);")]),
    ("C09", "ok", "c09-store", [(N, "\tlinks.quit = true;\n\twakeup();", "\tlinks.quit.store(true);\n\twakeup();")]),
    ("C09", "ok", "c09-dnslocked", [(N, "\tresolving       = true;\n\tthis->host_name = host_name;\n\tthis->port      = port;\n\tthis->ipv4      = ipv4;\n\tthis->ipv6      = ipv6;\n\tstd::unique_lock<std::mutex> lock(w.dns_mutex);", "\tresolving       = true;\n\tstd::lock_guard<std::mutex> lock(w.dns_mutex);\n\tthis->host_name = host_name;\n\tthis->port      = port;\n\tthis->ipv4      = ipv4;\n\tthis->ipv6      = ipv6;")]),
    # ---- C10
    ("C10", "bad", "c10-wait-if", [(N, "\tcond.wait(lock, [&]() -> bool { return started; });", "\tif (!started)\n\t\tcond.wait(lock);")]),
    ("C10", "bad", "c10-wait-ptr", [(N, "\tcond.wait(lock, [&]() -> bool { return started; });", "\tcond.wait(lock, [&]() -> bool { return run_loop_ptr != nullptr; });")]),
    ("C10", "bad", "c10-join-locked", [(N, "\t\t\tstd::unique_lock<std::mutex> lock(dns_mutex);\n\t\t\tquit = true;\n\t\t\tcond.notify_all();\n\t\t}\n\t\tif (dns_thread.joinable())\n\t\t\tdns_thread.join();", "\t\t\tstd::unique_lock<std::mutex> lock(dns_mutex);\n\t\t\tquit = true;\n\t\t\tcond.notify_all();\n\t\tif (dns_thread.joinable())\n\t\t\tdns_thread.join();\n\t\t}")]),
    ("C10", "bad", "c10-order", [(N, "\tauto &w = details::DNSWorker::get_instance();\n\tstd::unique_lock<std::mutex> lock(w.dns_mutex);\n\tif (w.executing_request == this)", "\tauto &w = details::DNSWorker::get_instance();\n\tstd::unique_lock<std::mutex> llock(RunLoop::current()->links.mutex);\n\tstd::unique_lock<std::mutex> lock(w.dns_mutex);\n\tif (w.executing_request == this)"), ("network.hpp", "\tfriend class Watcher;\n\tfriend class Signal;", "\tfriend class Watcher;\n\tfriend class DNSResolver;\n\tfriend class Signal;")]),
    ("C10", "bad", "c10-resolve-locked", [(N, "\t\t\t\tipv6      = executing_request->ipv6;\n\t\t\t}\n\t\t\t// resolve\n\t\t\tauto names = DNSResolver::sync_resolve(host_name, port, ipv4, ipv6);\n\t\t\tstd::unique_lock<std::mutex> lock(dns_mutex);\n", "\t\t\t\tipv6      = executing_request->ipv6;\n\t\t\t}\n\t\t\t// resolve\n\t\t\tstd::unique_lock<std::mutex> lock(dns_mutex);\n\t\t\tauto names = DNSResolver::sync_resolve(host_name, port, ipv4, ipv6);\n")]),
    ("C10", "bad", "c10-no-notify", [(N, "\tw.work_queue.push_back(*this);\n\tw.cond.notify_one();", "\tconst bool was_empty = w.work_queue.empty();\n\tw.work_queue.push_back(*this);\n\tif (was_empty && !w.executing_request)\n\t\tw.cond.notify_one();")]),
    ("C10", "bad", "c10-quit-unchecked", [(N, "\t\t\t\tif (quit)\n\t\t\t\t\treturn;\n\t\t\t\tif (work_queue.empty()) {\n\t\t\t\t\tcond.wait(lock);\n\t\t\t\t\tcontinue;\n\t\t\t\t}", "\t\t\t\tif (work_queue.empty())\n\t\t\t\t\tcond.wait(lock);\n\t\t\t\tif (quit)\n\t\t\t\t\treturn;\n\t\t\t\tif (work_queue.empty())\n\t\t\t\t\tcontinue;")]),
    ("C10", "bad", "c10-twice", [(N, "\tif (w.executing_request == this)\n\t\tw.executing_request = nullptr;\n\twork_queue_node.unlink();\n\tab.cancel();\n\tresolving = false;", "\tif (w.executing_request == this)\n\t\tw.executing_request = nullptr;\n\twork_queue_node.unlink();\n\tab.cancel();\n\tif (!w.work_queue.empty()) { std::unique_lock<std::mutex> l2(w.dns_mutex); w.cond.notify_one(); }\n\tresolving = false;")]),
    ("C10", "bad", "c10-user", [(N, "\t\tstd::unique_lock<std::mutex> lock(mu);\n\t\t    run_loop_ptr = &run_loop;", "\t\tstd::unique_lock<std::mutex> lock(mu);\n\t\t    run_loop_ptr = &run_loop;")] if 0 else [(N, "\t\twatcher.fired_objects_node.unlink();\n\t\ttriggered_callables.push_back(watcher.a_handler);", "\t\twatcher.fired_objects_node.unlink();\n\t\tif (fired_objects.empty() && triggered_callables.empty())\n\t\t\twatcher.a_handler.handler();\n\t\telse\n\t\t\ttriggered_callables.push_back(watcher.a_handler);")]),
    ("C10", "ok", "c10-while", [(N, "\tcond.wait(lock, [&]() -> bool { return started; });", "\twhile (!started)\n\t\tcond.wait(lock);")]),
    ("C10", "ok", "c10-while-worker", [(N, "\t\t\t\tif (quit)\n\t\t\t\t\treturn;\n\t\t\t\tif (work_queue.empty()) {\n\t\t\t\t\tcond.wait(lock);\n\t\t\t\t\tcontinue;\n\t\t\t\t}", "\t\t\t\twhile (!quit && work_queue.empty())\n\t\t\t\t\tcond.wait(lock);\n\t\t\t\tif (quit)\n\t\t\t\t\treturn;")]),
    ("C10", "ok", "c10-pred-worker", [(N, "\t\t\t\tif (quit)\n\t\t\t\t\treturn;\n\t\t\t\tif (work_queue.empty()) {\n\t\t\t\t\tcond.wait(lock);\n\t\t\t\t\tcontinue;\n\t\t\t\t}", "\t\t\t\tcond.wait(lock, [this] { return quit || !work_queue.empty(); });\n\t\t\t\tif (quit)\n\t\t\t\t\treturn;")]),
    # ---- C11
    ("C11", "bad", "c11-wake-first", [(N, "\tmy_loop->links.call_watcher(this);\n\tmy_loop->wakeup();", "\tmy_loop->wakeup();\n\tmy_loop->links.call_watcher(this);")]),
    ("C11", "bad", "c11-quit-after", [(N, "\tlinks.quit = true;\n\twakeup();", "\twakeup();\n\tlinks.quit = true;")]),
    ("C11", "bad", "c11-rearm-late", [(NP, "\t    eventfd_t value = 0;\n\t    eventfd_read(wake_fd.get_value(), &value);\n\t    // TODO - check error\n\n\t    links.trigger_called_watchers();", "\t    eventfd_t value = 0;\n\t    links.trigger_called_watchers();\n\t    eventfd_read(wake_fd.get_value(), &value);\n")]),
    ("C11", "bad", "c11-one", [(N, "\twhile (!fired_objects.empty()) {\n\t\tWatcher &watcher", "\tif (!fired_objects.empty()) {\n\t\tWatcher &watcher")]),
    ("C11", "bad", "c11-reset", [(N, "\tlinks.now = steady_clock::now();\n\twhile (!links.quit) {", "\tlinks.now = steady_clock::now();\n\tlinks.quit = false;\n\twhile (!links.quit) {")]),
    ("C11", "bad", "c11-dowhile", [(N, "\twhile (!links.quit) {\n\t\tif (!links.triggered", "\tdo {\n\t\tif (!links.triggered"), (N, "\t\t// Runloop optimizes # of calls to now() because those can be slow\n\t}\n\tlinks.quit = false;", "\t\t// Runloop optimizes # of calls to now() because those can be slow\n\t} while (!links.quit);\n\tlinks.quit = false;")]),
    ("C11", "bad", "c11-drain", [(N, "\t\tif (links.process_timer(timeout_ms))\n\t\t\tcontinue;", "\t\twhile (links.process_timer(timeout_ms)) {\n\t\t}")]),
    ("C11", "bad", "c11-skip-wake", [(N, "CRAB_INLINE void RunLoopLinks::call_watcher(Watcher *watcher) {\n\tstd::unique_lock<std::mutex> lock(mutex);\n\tfired_objects.push_back(*watcher);", "CRAB_INLINE bool RunLoopLinks::call_watcher(Watcher *watcher) {\n\tstd::unique_lock<std::mutex> lock(mutex);\n\tconst bool first = fired_objects.empty();\n\tfired_objects.push_back(*watcher);\n\treturn first;"), ("network.hpp", "\tvoid call_watcher(Watcher *watcher);", "\tbool call_watcher(Watcher *watcher);"), (N, "\tmy_loop->links.call_watcher(this);\n\tmy_loop->wakeup();", "\tif (my_loop->links.call_watcher(this) && !my_loop->links.quit)\n\t\tmy_loop->wakeup();")]),
    ("C11", "bad", "c11-regfd", [(NP, "\timpl_add_callable_fd(wake_fd.get_value(), &wake_callable, true, false);", "\timpl_add_callable_fd(wake_fd.get_value(), &wake_callable, false, true);")]),
    ("C11", "ok", "c11-for", [(N, "\twhile (!links.quit) {\n\t\tif (!links.triggered", "\tfor (;;) {\n\t\tif (links.quit.load())\n\t\t\tbreak;\n\t\tif (!links.triggered")]),
    ("C11", "ok", "c11-swap", [(N, "\t\twatcher.fired_objects_node.unlink();\n\t\ttriggered_callables.push_back(watcher.a_handler);", "\t\ttriggered_callables.push_back(watcher.a_handler);\n\t\twatcher.fired_objects_node.unlink();")]),
    # ---- C12
    ("C12", "bad", "c12-ret-early", [(N, "\tstd::unique_lock<std::mutex> lock(mu);\n\tcond.wait(lock, [&]() -> bool { return started; });", "\tstd::unique_lock<std::mutex> lock(mu);")]),
    ("C12", "bad", "c12-withdraw", [(N, "\t    scope_exit defer([&] {\n\t\t    std::unique_lock<std::mutex> lock(mu);\n\t\t    run_loop_ptr = nullptr;\n\t\t    // We do not call cond->notify_one() because we never wait on that condition\n\t    });\n\t    fun();", "\t    fun();\n\t    std::unique_lock<std::mutex> lock(mu);\n\t    run_loop_ptr = nullptr;")]),
    ("C12", "bad", "c12-members", [("network.hpp", "\tRunLoop *run_loop_ptr = nullptr;\n\tbool started          = false;  // We need separate condition, because we have 3 states\n\tstd::mutex mu;\n\tstd::condition_variable cond;\n\tstd::thread th;", "\tstd::thread th;\n\tRunLoop *run_loop_ptr = nullptr;\n\tbool started          = false;  // We need separate condition, because we have 3 states\n\tstd::mutex mu;\n\tstd::condition_variable cond;")]),
    ("C12", "bad", "c12-nocancel", [(N, "CRAB_INLINE Thread::~Thread() {\n\tcancel();\n\tth.join();", "CRAB_INLINE Thread::~Thread() {\n\tth.join();\n\tcancel();")]),
    ("C12", "bad", "c12-started-first", [(N, "\t    RunLoop run_loop;\n\t    {\n\t\t    std::unique_lock<std::mutex> lock(mu);\n\t\t    run_loop_ptr = &run_loop;\n\t\t    started      = true;  // From this point we have run_loop_ptr pointing to valid object\n\t\t    cond.notify_one();\n\t    }", "\t    {\n\t\t    std::unique_lock<std::mutex> lock(mu);\n\t\t    started      = true;  // From this point we have run_loop_ptr pointing to valid object\n\t\t    cond.notify_one();\n\t    }\n\t    RunLoop run_loop;\n\t    {\n\t\t    std::unique_lock<std::mutex> lock(mu);\n\t\t    run_loop_ptr = &run_loop;\n\t    }")]),
    ("C12", "bad", "c12-unlock-use", [(N, "\tstd::unique_lock<std::mutex> lock(mu);\n\tif (run_loop_ptr)\n\t\trun_loop_ptr->cancel();", "\tRunLoop *ptr = nullptr;\n\t{\n\t\tstd::unique_lock<std::mutex> lock(mu);\n\t\tptr = run_loop_ptr;\n\t}\n\tif (ptr)\n\t\tptr->cancel();")]),
    ("C12", "ok", "c12-copy", [(N, "\tstd::unique_lock<std::mutex> lock(mu);\n\tif (run_loop_ptr)\n\t\trun_loop_ptr->cancel();", "\tstd::lock_guard<std::mutex> lock(mu);\n\tRunLoop *const ptr = run_loop_ptr;\n\tif (ptr == nullptr)\n\t\treturn;\n\tptr->cancel();")]),
    # ---- C13
    ("C13", "bad", "c13-late-unlink", [(N, "\t\t\tcallable.triggered_callables_node.unlink();\n\t\t\tcallable.handler();", "\t\t\tcallable.handler();\n\t\t\tcallable.triggered_callables_node.unlink();")]),
    ("C13", "bad", "c13-idle-timeout", [(N, "\t\t\tstep(0);  // Poll", "\t\t\tstep(timeout_ms < 10 ? timeout_ms : 0);  // Poll")]),
    ("C13", "bad", "c13-norotate", [(N, "\t\t\t\tidle.idle_node.unlink();\n\t\t\t\tidle_handlers.push_back(idle);", "\t\t\t\tidle_handlers.push_back(idle);")]),
    ("C13", "bad", "c13-front", [(N, "\t\t\t\tidle.idle_node.unlink();\n\t\t\t\tidle_handlers.push_back(idle);", "\t\t\t\tidle.idle_node.unlink();\n\t\t\t\tidle_handlers.push_front(idle);")]),
    ("C13", "bad", "c13-idle-first", [(N, "\t\t\tif (links.triggered_callables.empty() && !idle_handlers.empty()) {", "\t\t\tif (!idle_handlers.empty()) {")]),
    ("C13", "bad", "c13-skip-timer", [(N, "\t\tif (links.process_timer(timeout_ms))\n\t\t\tcontinue;", "\t\tif (idle_handlers.empty() && links.process_timer(timeout_ms))\n\t\t\tcontinue;")]),
    ("C13", "bad", "c13-nocontinue", [(N, "\t\t\tcallable.handler();\n\t\t\tcontinue;\n\t\t}", "\t\t\tcallable.handler();\n\t\t\tif (!links.active_timers.empty())\n\t\t\t\tcontinue;\n\t\t}")]),
    ("C13", "bad", "c13-flag-skip", [(N, "\t\t\tcallable.triggered_callables_node.unlink();\n\t\t\tcallable.handler();", "\t\t\tcallable.triggered_callables_node.unlink();\n\t\t\tif (callable.can_read || callable.can_write)\n\t\t\t\tcallable.handler();")]),
    ("C13", "bad", "c13-pending-front", [(N, "\tRunLoop::current()->links.triggered_callables.push_back(*this);\n}\n\nnamespace details", "\tif (can_read || can_write)\n\t\tRunLoop::current()->links.triggered_callables.push_back(*this);\n}\n\nnamespace details")]),
    ("C13", "ok", "c13-helper", [(N, "\t\tif (links.process_timer(timeout_ms))\n\t\t\tcontinue;\n\t\t// Nothing", "\t\tconst bool fired = links.process_timer(timeout_ms);\n\t\tif (fired)\n\t\t\tcontinue;\n\t\tconst bool have_idles = !idle_handlers.empty();\n\t\t(void)have_idles;\n\t\t// Nothing")]),
    ("C13", "ok", "c13-timeout0", [(N, "\t\tif (idle_handlers.empty()) {\n\t\t\tstep(timeout_ms);  // Just waiting\n\t\t} else {\n\t\t\tstep(0);  // Poll, beware, both lists in a line below could change as a result\n", "\t\tconst bool poll_only = !idle_handlers.empty();\n\t\tif (poll_only)\n\t\t\ttimeout_ms = 0;\n\t\tstep(timeout_ms);\n\t\tif (poll_only) {\n")]),
    # ---- C14
    ("C14", "bad", "c14-nonull", [(N, "\t\t\texecuting_request->ab.call();\n\t\t\texecuting_request = nullptr;", "\t\t\texecuting_request->ab.call();")]),
    ("C14", "bad", "c14-nocheck", [(N, "\t\t\tif (!executing_request)\n\t\t\t\tcontinue;\n\t\t\texecuting_request->names", "\t\t\tif (!executing_request && names.empty())\n\t\t\t\tcontinue;\n\t\t\texecuting_request->names")]),
    ("C14", "bad", "c14-empty-noanswer", [(N, "\t\t\tif (!executing_request)\n\t\t\t\tcontinue;\n\t\t\texecuting_request->names", "\t\t\tif (!executing_request)\n\t\t\t\tcontinue;\n\t\t\tif (names.empty() && executing_request->names.empty()) {\n\t\t\t\texecuting_request = nullptr;\n\t\t\t\tcontinue;\n\t\t\t}\n\t\t\texecuting_request->names")]),
    ("C14", "bad", "c14-resolving-late", [(N, "\tresolving = false;\n\t// Handler can call", "\t// Handler can call"), (N, "\tdns_handler(result);\n", "\tdns_handler(result);\n\tresolving = false;\n")]),
    ("C14", "bad", "c14-return", [(N, "\t\t\tif (!executing_request)\n\t\t\t\tcontinue;\n\t\t\texecuting_request->names", "\t\t\tif (!executing_request)\n\t\t\t\treturn;\n\t\t\texecuting_request->names")]),
    ("C14", "bad", "c14-nocancel", [(N, "\tcancel();\n\tauto &w         = details::DNSWorker::get_instance();\n\tresolving       = true;", "\tauto &w         = details::DNSWorker::get_instance();\n\tif (!resolving)\n\t\tcancel();\n\tresolving       = true;")]),
    ("C14", "bad", "c14-ipv6", [(N, "\t\t\t\tipv4      = executing_request->ipv4;\n\t\t\t\tipv6      = executing_request->ipv6;", "\t\t\t\tipv4      = executing_request->ipv4;\n\t\t\t\tipv6      = executing_request->ipv4;")]),
    ("C14", "bad", "c14-throw", [(N, "\t\t\t// resolve\n", "\t\t\tif (host_name.empty())\n\t\t\t\tthrow std::runtime_error(\"no host\");\n")]),
    ("C14", "bad", "c14-nocancel2", [(N, "\twork_queue_node.unlink();\n\tab.cancel();\n\tresolving = false;", "\twork_queue_node.unlink();\n\tresolving = false;")]),
    ("C14", "bad", "c14-sync-throw", [("network_posix_win.hxx", "\tif (getaddrinfo(host_name.c_str(), service.c_str(), &hints, &holder.result) != 0)\n\t\treturn names;", "\tif (getaddrinfo(host_name.c_str(), service.c_str(), &hints, &holder.result) != 0)\n\t\tthrow std::runtime_error(\"getaddrinfo\");")]),
    ("C14", "ok", "c14-local", [(N, "\t\t\texecuting_request->names = std::move(names);\n\t\t\texecuting_request->ab.call();\n\t\t\texecuting_request = nullptr;", "\t\t\tDNSResolver *const request = executing_request;\n\t\t\texecuting_request = nullptr;\n\t\t\trequest->names = std::move(names);\n\t\t\trequest->ab.call();")]),
    ("C14", "ok", "c14-if", [(N, "\t\t\tif (!executing_request)\n\t\t\t\tcontinue;\n\t\t\texecuting_request->names = std::move(names);\n\t\t\texecuting_request->ab.call();\n\t\t\texecuting_request = nullptr;", "\t\t\tif (executing_request) {\n\t\t\t\texecuting_request->names = std::move(names);\n\t\t\t\texecuting_request->ab.call();\n\t\t\t\texecuting_request = nullptr;\n\t\t\t}")]),

    ("C15", "bad", "c15-query-ctl", [(RP, "\t\tif (is_ctl(input))\n\t\t\tthrow std::runtime_error{\"Invalid (control) character in uri\"};\n\t\tif (input == '#')\n\t\t\treturn URI_ANCHOR;\n\t\treq.query_string", "\t\tif (is_ctl(input) && input != '\\r')\n\t\t\tthrow std::runtime_error{\"Invalid (control) character in uri\"};\n\t\tif (input == '#')\n\t\t\treturn URI_ANCHOR;\n\t\treq.query_string")]),
    ("C15", "bad", "c15-method", [(RP, "\t\tif (!is_char(input) || is_ctl(input) || is_tspecial(input))\n\t\t\tthrow std::runtime_error{\"Invalid character in method\"};", "\t\tif (is_ctl(input) || is_tspecial(input))\n\t\t\tthrow std::runtime_error{\"Invalid character in method\"};")]),
    ("C15", "bad", "c15-header-lf", [(SP, "\tcase HEADER_LF:\n\t\tif (input != '\\n')", "\tcase HEADER_LF:\n\t\tif (input != '\\n' && input != '\\r')")]),
    ("C15", "bad", "c15-limit", [(RP, "if (++total_length > max_total_length)", "if (total_length++ > max_total_length)")]),
    ("C15", "bad", "c15-limit-state", [(SP, "if (++total_length > max_total_length)", "if (++total_length > max_total_length && state != STATUS_TEXT)")]),
    ("C15", "bad", "c15-pct", [(RP, "percent1_hex_digit * 16 + digit2", "percent1_hex_digit * 16 | (digit2 & 7) | (digit2 > 8 ? 8 : 0)")]),
    ("C15", "bad", "c15-loop", [("http/request_parser.hpp", "while (begin != end && state != GOOD)\n\t\t\tstate = consume(*begin++);", "while (begin != end) {\n\t\t\tif (state == GOOD) { ++begin; break; }\n\t\t\tstate = consume(*begin++); }")]),
    ("C15", "bad", "c15-didread", [(SP, "buf.did_read(ptr - buf.read_ptr());", "buf.did_read(is_good() ? ptr - buf.read_ptr() : buf.read_count());\n\tif (!is_good() && buf.read_count2()) buf.did_read(0);")]),
    ("C15", "bad", "c15-ka", [(SP, "req.keep_alive = req.http_version_major == 1 && req.http_version_minor >= 1;", "req.keep_alive = req.http_version_major == 1 && req.http_version_minor > 1;")]),
    ("C15", "bad", "c15-minor", [(RP, "if (req.http_version_minor > 99)", "if (req.http_version_minor > 999)")]),
    ("C15", "bad", "c15-valuectl", [(SP, "throw std::runtime_error{\"Invalid character (control) in header value\"};\n\t\tif (header_cms_list", "{ if (input != '\\v') throw std::runtime_error{\"Invalid character (control) in header value\"}; return HEADER_VALUE; }\n\t\tif (header_cms_list")]),
    ("C15", "bad", "c15-colon", [(RP, "\tcase HEADER_COLON:\n\t\tif (is_sp(input))\n\t\t\treturn HEADER_COLON;\n\t\tif (input != ':')", "\tcase HEADER_COLON:\n\t\tif (is_sp(input))\n\t\t\treturn HEADER_COLON;\n\t\tif (input == '=')\n\t\t\treturn SPACE_BEFORE_HEADER_VALUE;\n\t\tif (input != ':')")]),
    ("C15", "ok", "c15-helper", [(RP, "CRAB_INLINE RequestParser::State RequestParser::consume(char input) {\n\t;", "static void need_token(char input, const char *what) {\n\tif (is_tspecial(input) || is_ctl(input) || !is_char(input))\n\t\tthrow std::runtime_error{what};\n}\n\nCRAB_INLINE RequestParser::State RequestParser::consume(char input) {"), (RP, "\t\tif (!is_char(input) || is_ctl(input) || is_tspecial(input))\n\t\t\tthrow std::runtime_error{\"Invalid character in method\"};", "\t\tneed_token(input, \"Invalid character in method\");")]),
    ("C15", "ok", "c15-limit2", [(SP, "if (++total_length > max_total_length)", "total_length += 1;\n\tif (max_total_length < total_length)")]),
    ("C15", "ok", "c15-loop2", [("http/request_parser.hpp", "while (begin != end && state != GOOD)\n\t\t\tstate = consume(*begin++);\n\t\treturn begin;", "for (; begin != end; ++begin) {\n\t\t\tif (is_good())\n\t\t\t\tbreak;\n\t\t\tconst char c = static_cast<char>(*begin);\n\t\t\tstate = consume(c);\n\t\t}\n\t\treturn begin;")]),
    ("C15", "ok", "c15-buf", [(SP, "\tauto ptr = parse(buf.read_ptr(), buf.read_ptr() + buf.read_count());\n\tbuf.did_read(ptr - buf.read_ptr());", "\tconst uint8_t *start = buf.read_ptr();\n\tconst uint8_t *stop = parse(start, start + buf.read_count());\n\tbuf.did_read(static_cast<size_t>(stop - start));")]),
    ("C16", "bad", "c16-dup", [(SP, "\t\tif (req.content_length)\n\t\t\tthrow std::runtime_error{\"content length specified more than once\"};\n", "")]),
    ("C16", "bad", "c16-last", [(SP, "\t\tif (req.transfer_encoding_chunked)\n\t\t\tthrow std::runtime_error{\"chunk encoding must be applied last\"};\n", "")]),
    ("C16", "bad", "c16-lower", [(RP, "\t\ttolower(header.value);\n\t\tif (header.value == string_view{\"identity\"})", "\t\tif (header.value == string_view{\"identity\"})")]),
    ("C16", "bad", "c16-sign", [(RP, "if (header.value.empty() || !isdigit(header.value[0]))", "if (header.value.empty())")]),
    ("C16", "bad", "c16-cms", [(SP, "header_cms_list = (header.name == string_view{\"connection\"}) || (header.name == string_view{\"transfer-encoding\"});", "header_cms_list = (header.name == string_view{\"connection\"});")]),
    ("C16", "bad", "c16-namecase", [(RP, "\t\t\theader.name.push_back(static_cast<char>(std::tolower(input)));\n\t\t\treturn HEADER_NAME;\n\t\t}", "\t\t\theader.name.push_back(input);\n\t\t\treturn HEADER_NAME;\n\t\t}")]),
    ("C16", "bad", "c16-catch", [(RP, "} catch (const std::exception &) {\n\t\t\tstd::throw_with_nested(std::runtime_error{\"Content length is not a number\"});\n\t\t}", "} catch (const std::exception &) {\n\t\t\treq.content_length = uint64_t{0};\n\t\t}")]),
    ("C16", "bad", "c16-clear", [(SP, "\t\tprocess_ready_header();\n\t\theader.name.clear();\n\t\theader.value.clear();", "\t\tprocess_ready_header();\n\t\theader.name.clear();\n\t\tif (!header_cms_list)\n\t\t\theader.value.clear();")]),
    ("C16", "bad", "c16-trim", [("http/types.hxx", "while (!str.empty() && is_sp(str.back()))", "if (!str.empty() && is_sp(str.back()))")]),
    ("C16", "ok", "c16-order", [(SP, "\tif (header.name == string_view{\"date\"}) {\n\t\treq.date = header.value;\n\t\treturn;\n\t}\n", ""), (SP, "\tif (header.name == string_view{\"content-type\"}) {", "\tif (header.name == string_view{\"date\"}) {\n\t\treq.date = header.value;\n\t\treturn;\n\t}\n\tif (header.name == string_view{\"content-type\"}) {")]),
    ("C16", "ok", "c16-strcmp", [(RP, "if (header.value == string_view{\"chunked\"}) {", "if (header.value == \"chunked\") {")]),
    ("C16", "ok", "c16-helper", [(SP, "CRAB_INLINE void ResponseParser::process_ready_header() {", "static bool value_is(const std::string &v, const char *w) { return v == w; }\nCRAB_INLINE void ResponseParser::process_ready_header() {"), (SP, "if (header.value == string_view{\"chunked\"}) {", "if (value_is(header.value, \"chunked\")) {")]),
]

QP, QH = "http/query_parser.hxx", "http/query_parser.hpp"
M += [
    ("C30", "bad", "c30-emptykey", [(QP, "\tcase VALUE:\n\t\tpersist_pair();\n\t\treturn KEY;\n\tcase KEY_PERCENT1", "\tcase VALUE:\n\t\tif (!key_.empty())\n\t\t\tpersist_pair();\n\t\treturn KEY;\n\tcase KEY_PERCENT1")]),
    ("C30", "bad", "c30-valclear", [(QP, "parsed[key_] = value_;  // If identical, second one wins\n\tkey_.clear();\n\tvalue_.clear();", "parsed[key_] = value_;  // If identical, second one wins\n\tkey_.clear();\n\tif (state == VALUE)\n\t\tvalue_.clear();")]),
    ("C30", "bad", "c30-end-p2", [(QP, "\tcase VALUE_PERCENT2:\n\t\tvalue_.push_back('%');\n\t\tvalue_.push_back(percent1_hex_sym);\n", "\tcase VALUE_PERCENT2:\n\t\tvalue_.push_back('%');\n")]),
    ("C30", "bad", "c30-hexsign", [(QP, "key_.push_back(static_cast<char>(from_hex_digit(percent1_hex_sym) * 16 + digit2));", "key_.push_back(static_cast<char>(from_hex_digit(percent1_hex_sym) * 10 + digit2));")]),
    ("C30", "bad", "c30-uri-at", [(QP, "uri.user_info      = url_decode(uri.host + ':' + uri.port);\n\t\t\turi.host.clear();\n\t\t\turi.port.clear();", "uri.user_info      = url_decode(uri.host + ':' + uri.port);\n\t\t\turi.host.clear();")]),
    ("C30", "bad", "c30-uri-dot", [(QP, "} else if (cur_path_ != string_view{\".\"}) {", "} else if (!cur_path_.empty() && cur_path_ != string_view{\".\"}) {")]),
    ("C30", "bad", "c30-uri-back", [(QP, "\t\tif (digit1 < 0) {\n\t\t\tcur_path_.push_back('%');\n\t\t\tstate = PATH;\n\t\t\treturn consume(input);", "\t\tif (digit1 < 0) {\n\t\t\tcur_path_.push_back('%');\n\t\t\tcur_path_.push_back(input);\n\t\t\treturn PATH;")]),
    ("C30", "bad", "c30-cookie-end", [(QP, "\tif (state != KEY_WS_BEFORE)\n\t\tpersist_pair();", "\tif (state == VALUE || state == KEY)\n\t\tpersist_pair();")]),
    ("C30", "bad", "c30-cookie-eq", [(QP, "\tcase VALUE:\n\t\tif (input == ';') {\n\t\t\tpersist_pair();\n\t\t\treturn KEY_WS_BEFORE;\n\t\t}\n", "\tcase VALUE:\n\t\tif (input == ';') {\n\t\t\tpersist_pair();\n\t\t\treturn KEY_WS_BEFORE;\n\t\t}\n\t\tif (input == '=')\n\t\t\treturn VALUE_WS_BEFORE;\n")]),
    ("C30", "bad", "c30-cookie-trim", [(QP, "\ttrim_right(key_);\n\ttrim_right(value_);", "\ttrim_right(key_);")]),
    ("C30", "bad", "c30-cookie-parse-end", [(QH, "\tvoid parse_end() { state = consume_end(); }\n\n\tvoid parse(const std::string &str) {\n\t\tparse(str.data(), str.data() + str.size());\n\t\tparse_end();\n\t}\n\tstd::unordered_map<std::string, std::string> parsed;\n\nprivate:\n\tenum State { KEY_WS", "\tvoid parse_end() { state = consume_end(); }\n\n\tvoid parse(const std::string &str) {\n\t\tif (str.empty()) return;\n\t\tparse(str.data(), str.data() + str.size() - 1);\n\t\tparse_end();\n\t}\n\tstd::unordered_map<std::string, std::string> parsed;\n\nprivate:\n\tenum State { KEY_WS")]),
    ("C30", "ok", "c30-iter", [(QH, "\t\tparse(str.data(), str.data() + str.size());\n\t\tparse_end();\n\t}\n\tstd::unordered_map<std::string, std::string> parsed;\n\nprivate:\n\tenum State { KEY,", "\t\tparse(str.begin(), str.end());\n\t\tparse_end();\n\t}\n\tstd::unordered_map<std::string, std::string> parsed;\n\nprivate:\n\tenum State { KEY,")]),
    ("C30", "ok", "c30-space", [(QP, "\t\tif (input == '+')\n\t\t\tvalue_.push_back(' ');\n\t\telse\n\t\t\tvalue_.push_back(input);", "\t\tvalue_ += input == '+' ? ' ' : input;")]),
    ("C30", "ok", "c30-emplace", [(QP, "parsed[key_] = value_;  // If identical, second one wins\n\tkey_.clear();\n\tvalue_.clear();\n}\n\nCRAB_INLINE QueryParser::State QueryParser::consume_end", "auto &v = parsed[key_];\n\tv = value_;\n\tvalue_.clear();\n\tkey_.clear();\n}\n\nCRAB_INLINE QueryParser::State QueryParser::consume_end")]),
    ("C30", "ok", "c30-move", [(QP, "parsed[key_] = value_;  // If identical, second one wins\n\tkey_.clear();\n\tvalue_.clear();\n}\n\nCRAB_INLINE QueryParser::State QueryParser::consume_end", "parsed[key_] = std::move(value_);\n\tkey_.clear();\n\tvalue_.clear();\n}\n\nCRAB_INLINE QueryParser::State QueryParser::consume_end")]),
    ("C30", "ok", "c30-movekey", [(QP, "parsed[key_] = value_;  // If identical, second one wins\n\tkey_.clear();\n\tvalue_.clear();\n}\n\nCRAB_INLINE QueryParser::State QueryParser::consume_end", "parsed[std::move(key_)] = std::move(value_);\n\tkey_.clear();\n\tvalue_.clear();\n}\n\nCRAB_INLINE QueryParser::State QueryParser::consume_end")]),
]

IC = "integer_cast.hpp"
M += [
    ("C28", "bad", "c28-ge", [(IC, "\tif (arg > static_cast<UT>(std::numeric_limits<T>::max()))", "\tif (arg >= static_cast<UT>(std::numeric_limits<T>::max()))")]),
    ("C28", "bad", "c28-neg", [(IC, "\tif (arg < 0)\n\t\tthrow_out_of_range<T>(arg);\n", "")]),
    ("C28", "bad", "c28-us", [(IC, "if (static_cast<US>(arg) > std::numeric_limits<T>::max())", "if (static_cast<T>(arg) > std::numeric_limits<T>::max())")]),
    ("C28", "bad", "c28-safe3", [(IC, "constexpr size_t max_safe_digits = sizeof(T) * 2;  // Approximate", "constexpr size_t max_safe_digits = sizeof(T) * 5 / 2;  // Approximate")]),
    ("C28", "bad", "c28-lastdigit", [(IC, "(value == last_value && digit > last_digit))\n\t\t\t\t\treturn {value, \"Number overflow \"};", "(value == last_value && digit >= last_digit))\n\t\t\t\t\treturn {value, \"Number overflow \"};")]),
    ("C28", "bad", "c28-minlast", [(IC, "constexpr int last_digit = -static_cast<int>(std::numeric_limits<T>::min() % 10);", "constexpr int last_digit = static_cast<int>(std::numeric_limits<T>::max() % 10);")]),
    ("C28", "bad", "c28-zero", [(IC, "value = value * 10 + digit;", "value = value * 10 + digit % 10 + digit / 10;"), (IC, "\t\tif (begin == end)\n\t\t\treturn {value, \"Number must start from sign or digit \"};\n\t\tif (!isdigit(*begin))\n\t\t\treturn {value, \"Number must start from sign or digit \"};\n\t\tvalue                            = static_cast<T>(*begin - '0');", "\t\tif (begin != end && !isdigit(*begin))\n\t\t\treturn {value, \"Number must start from sign or digit \"};\n\t\tif (begin == end)\n\t\t\treturn {value, nullptr};\n\t\tvalue                            = static_cast<T>(*begin - '0');")]),
    ("C28", "bad", "c28-trail", [(IC, "\twhile (begin != end && is_integer_space(*begin))\n\t\tbegin += 1;\n\tif (begin != end) {", "\tif (begin != end && !is_integer_space(*begin)) {")]),
    ("C28", "bad", "c28-plusminus", [(IC, "if (std::is_unsigned<T>::value)  // No template magic", "if (std::is_unsigned<T>::value && sizeof(T) < 8)  // No template magic")]),
    ("C28", "ok", "c28-sub", [(IC, "\tif (b <= 0) {\n\t\tif (a > std::numeric_limits<T>::max() + b)\n\t\t\treturn {};", "\tif (b < 0) {\n\t\tif (a > std::numeric_limits<T>::max() + b)\n\t\t\treturn {};")]),
    ("C28", "bad", "c28-addmin", [(IC, "\t\tif (a < std::numeric_limits<T>::min() - b)\n\t\t\tthrow std::out_of_range(\"add underflow\");", "\t\tif (a <= std::numeric_limits<T>::min() - b)\n\t\t\tthrow std::out_of_range(\"add underflow\");")]),
    ("C28", "ok", "c28-builtin", [(IC, "\tif (b >= 0) {\n\t\tif (a > std::numeric_limits<T>::max() - b)\n\t\t\treturn {};\n\t} else {\n\t\tif (a < std::numeric_limits<T>::min() - b)\n\t\t\treturn {};\n\t}\n\treturn a + b;", "\tif (b >= 0 && a > std::numeric_limits<T>::max() - b)\n\t\treturn {};\n\tif (b < 0 && a < std::numeric_limits<T>::min() - b)\n\t\treturn {};\n\treturn b + a;")]),
    ("C28", "ok", "c28-digitfn", [(IC, "template<typename T>\nstd::pair<T, const char *> integer_parse_impl(", "inline int digit_value(char c) { return isdigit(c) ? c - '0' : -1; }\n\ntemplate<typename T>\nstd::pair<T, const char *> integer_parse_impl("), (IC, "\t\t\t\tif (!isdigit(*begin))\n\t\t\t\t\tbreak;\n\t\t\t\tint digit                = *begin - '0';", "\t\t\t\tint digit = digit_value(*begin);\n\t\t\t\tif (digit < 0)\n\t\t\t\t\tbreak;")]),
    ("C28", "ok", "c28-range", [(IC, "\tif (arg > std::numeric_limits<T>::max())\n\t\tthrow_out_of_range<T>(arg);\n\tif (arg < std::numeric_limits<T>::min())\n\t\tthrow_out_of_range<T>(arg);\n\treturn static_cast<T>(arg);\n}\n\ntemplate<typename T, typename S>\ninline T integer_cast_impl(const S &arg, std::true_type, std::false_type) {", "\tT r = static_cast<T>(arg);\n\tif (r != arg)\n\t\tthrow_out_of_range<T>(arg);\n\treturn r;\n}\n\ntemplate<typename T, typename S>\ninline T integer_cast_impl(const S &arg, std::true_type, std::false_type) {")]),
]

UT, B6 = "util.hxx", "crypto/base64.hxx"
M += [
    ("C29", "bad", "c29-ed", [(UT, "10,3,3,3,3,3,3,3,3,3,3,3,3,4,3,3,", "10,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,")]),
    ("C29", "bad", "c29-f5", [(UT, "11,6,6,6,5,8,8,8,8,8,8,8,8,8,8,8,", "11,6,6,6,5,5,8,8,8,8,8,8,8,8,8,8,")]),
    ("C29", "bad", "c29-c1", [(UT, "            8,8,2,2,2,2", "            8,2,2,2,2,2")]),
    ("C29", "bad", "c29-trunc", [(UT, "\treturn state == details::UTF8_ACCEPT;\n}\n\nnamespace details {\nCRAB_INLINE std::string inv", "\treturn state != details::UTF8_REJECT;\n}\n\nnamespace details {\nCRAB_INLINE std::string inv")]),
    ("C29", "bad", "c29-recover", [(UT, "\t\tdetails::utf8_decode(&state, &codepoint, data[pos]);\n", "\t\tif (details::utf8_decode(&state, &codepoint, data[pos]) == details::UTF8_REJECT && pos > 70)\n\t\t\tstate = 0;\n")]),
    ("C29", "bad", "c29-hexodd", [(UT, "\tif (str.size() % 2 != 0)\n\t\treturn false;\n\tbdata result;", "\tbdata result;"), (UT, "for (size_t i = 0; i != str.size(); i += 2) {\n\t\tauto d0", "for (size_t i = 0; i + 1 < str.size(); i += 2) {\n\t\tauto d0")]),
    ("C29", "bad", "c29-hexG", [(UT, "sym >= 'A' && sym <= 'F'", "sym >= 'A' && sym <= 'G'")]),
    ("C29", "bad", "c29-hexpartial", [(UT, "\tdata = std::move(result);\n\treturn true;", "\tdata.swap(result);\n\treturn data.size() * 2 == str.size();"), (UT, "\t\tif (d0 < 0 || d1 < 0)\n\t\t\treturn false;\n\t\tresult.push", "\t\tif (d0 < 0 || d1 < 0)\n\t\t\tbreak;\n\t\tresult.push")]),
    ("C29", "bad", "c29-b64or", [(B6, "\t\tif ((c0 | c1 | c2 | c3) & 64)", "\t\tif ((c0 | c1 | c3) & 64)")]),
    ("C29", "bad", "c29-b64eq2", [(B6, "\t\tif (uin[3] == '=') {\n\t\t\tif (uin[2] == '=') {", "\t\tif (uin[3] == '=' && n == 0) {\n\t\t\tif (uin[2] == '=') {")]),
    ("C29", "bad", "c29-b64tail", [(B6, "int inc = (in[0] << 16) + (in[1] << 8);\n\t\t*out++  = tab[(inc >> 18)];\n\t\t*out++  = tab[(inc >> 12) & 0x3f];\n\t\t*out++  = tab[(inc >> 6) & 0x3f];", "int inc = (in[0] << 16) + (in[1] << 8);\n\t\t*out++  = tab[(inc >> 18)];\n\t\t*out++  = tab[(inc >> 12) & 0x3f];\n\t\t*out++  = tab[(inc >> 6) & 0x38];")]),
    ("C29", "bad", "c29-urlpct", [("http/query_parser.hxx", "if (!is_uri_reserved(c) || (path && c == '/')) {", "if (!is_uri_reserved(c) || (path && (c == '/' || c == '%'))) {")]),
    ("C29", "bad", "c29-urlend", [("http/query_parser.hxx", "if (str[pos] != '%' || pos + 3 > str.size()) {", "if (str[pos] != '%' || pos + 3 >= str.size()) {")]),
    ("C29", "bad", "c29-urlpos", [("http/query_parser.hxx", "\t\tif (digit1 < 0 || digit2 < 0) {\n\t\t\tresult += str[pos];\n\t\t\tpos += 1;\n\t\t\tcontinue;", "\t\tif (digit1 < 0 || digit2 < 0) {\n\t\t\tresult += str[pos];\n\t\t\tpos += 1;\n\t\t\tresult += str[pos];\n\t\t\tpos += 1;\n\t\t\tcontinue;")]),
    ("C29", "ok", "c29-early", [(UT, "\t\tdetails::utf8_decode(&state, &codepoint, data[pos]);\n", "\t\tif (details::utf8_decode(&state, &codepoint, data[pos]) == details::UTF8_REJECT)\n\t\t\treturn false;\n")]),
    ("C29", "ok", "c29-ptr", [(UT, "\tfor (size_t pos = 0; pos != count; ++pos)\n\t\tdetails::utf8_decode(&state, &codepoint, data[pos]);\n", "\tconst uint8_t *end = data + count;\n\twhile (data != end)\n\t\tdetails::utf8_decode(&state, &codepoint, *data++);\n")]),
    ("C29", "ok", "c29-hexor", [(UT, "result.push_back(static_cast<uint8_t>(d0 * 16 + d1));", "result.push_back(static_cast<uint8_t>((d0 << 4) | d1));")]),
    ("C29", "ok", "c29-hexidx", [(UT, "\tbdata result;\n\tresult.reserve(str.size() / 2);", "\tbdata result(str.size() / 2);"), (UT, "result.push_back(static_cast<uint8_t>(d0 * 16 + d1));", "result[i / 2] = static_cast<uint8_t>(d0 * 16 + d1);")]),
    ("C29", "ok", "c29-hexswitch", [(UT, "\tif (sym >= 'a' && sym <= 'f')\n\t\treturn sym - 'a' + 10;\n\tif (sym >= 'A' && sym <= 'F')\n\t\treturn sym - 'A' + 10;\n\treturn -1;", "\tchar low = static_cast<char>(sym | 0x20);\n\treturn low >= 'a' && low <= 'f' ? low - 'a' + 10 : -1;")]),
    ("C29", "ok", "c29-b64fn", [(B6, "\t\tint inc = (in[0] << 16) + (in[1] << 8) + in[2];", "\t\tunsigned inc = (unsigned(in[0]) << 16) | (unsigned(in[1]) << 8) | in[2];")]),
    ("C29", "ok", "c29-urlhexfn", [("http/query_parser.hxx", "\t\tresult += '%';\n\t\tuint8_t ch = c;\n\t\tresult += hexdigits[(ch >> 4) & 0xf];\n\t\tresult += hexdigits[ch & 0xf];", "\t\tresult.push_back('%');\n\t\tconst uint8_t ch = static_cast<uint8_t>(c);\n\t\tresult.push_back(hexdigits[ch / 16]);\n\t\tresult.push_back(hexdigits[ch % 16]);")]),
]

RX, RH = "http/request_parser.hxx", "http/request_parser.hpp"
M += [
    ("C17", "bad", "c17-int", [(RX, "size_t wr = static_cast<size_t>(std::min<uint64_t>(end - begin, remaining_bytes));\n\t\tbody.write(begin, wr);\n\t\tbegin += wr;\n\t\tremaining_bytes -= wr;\n\t\tif (remaining_bytes == 0)\n\t\t\tstate = GOOD;", "size_t wr = static_cast<size_t>(std::min<uint32_t>(end - begin, remaining_bytes));\n\t\tbody.write(begin, wr);\n\t\tbegin += wr;\n\t\tremaining_bytes -= wr;\n\t\tif (remaining_bytes == 0)\n\t\t\tstate = GOOD;")]),
    ("C17", "bad", "c17-nomin", [(RX, "\t\tif (remaining_bytes == 0) {\n\t\t\tchunk_header_total_length = 0;", "\t\tif (remaining_bytes <= 1) {\n\t\t\tchunk_header_total_length = 0;")]),
    ("C17", "bad", "c17-noreset", [(RX, "\t\t\tchunk_header_total_length = 0;\n", "")]),
    ("C17", "bad", "c17-resetcr", [(RX, "\tcase CHUNK_BODY_CR:\n\t\tchunk_header_total_length += 1;\n\t\tif (is_sp(input))\n", "\tcase CHUNK_BODY_CR:\n\t\tchunk_header_total_length += 1;\n\t\tif (is_sp(input) && (chunk_header_total_length = 1))\n")]),
    ("C17", "bad", "c17-ovf", [(RX, "remaining_bytes > (std::numeric_limits<uint64_t>::max() - 15) / 16", "remaining_bytes > std::numeric_limits<uint64_t>::max() / 15")]),
    ("C17", "bad", "c17-ovf2", [(RX, "\t\tif (remaining_bytes > (std::numeric_limits<uint64_t>::max() - 15) / 16)\n", "\t\tif (remaining_bytes * 16 + digit < remaining_bytes)\n")]),
    ("C17", "bad", "c17-eatlf", [(RX, "\tcase CHUNK_SIZE_LF:\n\t\tchunk_header_total_length += 1;\n\t\tif (input != '\\n')\n\t\t\tthrow std::runtime_error{\"Newline is expected\"};\n\t\treturn (remaining_bytes == 0) ? TRAILER_LINE_START", "\tcase CHUNK_SIZE_LF:\n\t\tchunk_header_total_length += 1;\n\t\tif (input != '\\n')\n\t\t\tthrow std::runtime_error{\"Newline is expected\"};\n\t\treturn (remaining_bytes == 0) ? FINAL_LF")]),
    ("C17", "bad", "c17-trailergood", [(RX, "\t\tif (input == '\\r')\n\t\t\treturn TRAILER_LF;\n\t\tif (input == '\\n')\n\t\t\treturn TRAILER_LINE_START;", "\t\tif (input == '\\r')\n\t\t\treturn TRAILER_LF;\n\t\tif (input == '\\n')\n\t\t\treturn GOOD;")]),
    ("C17", "bad", "c17-extlimit", [(RX, "\tcase CHUNK_SIZE_EXTENSION:\n\t\tchunk_header_total_length += 1;\n", "\tcase CHUNK_SIZE_EXTENSION:\n")]),
    ("C17", "bad", "c17-trailerlimit", [(RX, "\tcase TRAILER:\n\t\ttrailers_total_length += 1;\n", "\tcase TRAILER:\n")]),
    ("C17", "bad", "c17-firstdigit", [(RX, "\t\tremaining_bytes = digit;\n", "\t\tremaining_bytes = remaining_bytes * 16 + digit;\n")]),
    ("C17", "bad", "c17-emptysize", [(RX, "\t\tint digit = from_hex_digit(input);\n\t\tif (digit < 0)\n\t\t\tthrow std::runtime_error{\"Chunk size must start with hex digit\"};\n", "\t\tremaining_bytes = 0;\n\t\tif (input == ';')\n\t\t\treturn CHUNK_SIZE_EXTENSION;\n\t\tint digit = from_hex_digit(input);\n\t\tif (digit < 0)\n\t\t\tthrow std::runtime_error{\"Chunk size must start with hex digit\"};\n")]),
    ("C17", "bad", "c17-good", [(RH, "while (begin != end && state != GOOD)\n\t\t\tbegin = consume(begin, end);", "do\n\t\t\tbegin = consume(begin, end);\n\t\twhile (begin != end && state != GOOD);")]),
    ("C17", "bad", "c17-cl0", [(RX, "state = (remaining_bytes == 0) ? GOOD : CONTENT_LENGTH_BODY;", "state = content_length ? CONTENT_LENGTH_BODY : GOOD;")]),
    ("C17", "bad", "c17-both", [(RX, "\tif (chunked) {\n\t\t// ignore", "\tif (chunked && !content_length) {\n\t\t// ignore")]),
    ("C17", "ok", "c17-shift", [(RX, "remaining_bytes = remaining_bytes * 16 + digit;", "remaining_bytes = (remaining_bytes << 4) | static_cast<unsigned>(digit);"), (RX, "remaining_bytes > (std::numeric_limits<uint64_t>::max() - 15) / 16", "(remaining_bytes >> 60) != 0")]),
    ("C17", "ok", "c17-if", [(RX, "size_t wr = static_cast<size_t>(std::min<uint64_t>(end - begin, remaining_bytes));\n\t\tbody.write(begin, wr);\n\t\tbegin += wr;\n\t\tremaining_bytes -= wr;\n\t\tif (remaining_bytes == 0)\n\t\t\tstate = GOOD;", "size_t wr = end - begin;\n\t\tif (remaining_bytes < wr)\n\t\t\twr = static_cast<size_t>(remaining_bytes);\n\t\tremaining_bytes -= wr;\n\t\tbody.get_buffer().append(reinterpret_cast<const char *>(begin), wr);\n\t\tbegin += wr;\n\t\tif (remaining_bytes == 0)\n\t\t\tstate = GOOD;")]),
    ("C17", "ok", "c17-for", [(RH, "while (begin != end && state != GOOD)\n\t\t\tbegin = consume(begin, end);\n\t\treturn begin;", "const uint8_t *pos = begin;\n\t\twhile (!is_good()) {\n\t\t\tif (pos == end)\n\t\t\t\tbreak;\n\t\t\tpos = consume(pos, end);\n\t\t}\n\t\treturn pos;")]),
    ("C17", "ok", "c17-after", [(RX, "\tif (chunk_header_total_length > max_chunk_header_total_length)\n\t\tthrow std::runtime_error{\"HTTP Chunk Header too long - security violation\"};\n", "\tif (chunk_header_total_length >= max_chunk_header_total_length)\n\t\tthrow std::runtime_error{\"HTTP Chunk Header too long - security violation\"};\n")]),
    ("C17", "ok", "c17-strict", [(RX, "\t\tif (is_sp(input))\n\t\t\treturn CHUNK_BODY_CR;\n", "")]),
]

TY = "http/types.hxx"
M += [
    ("C18", "bad", "c18-suffix", [(TY, 'ss << "; " << req.content_type_suffix;', 'ss << ", " << req.content_type_suffix;')]),
    ("C18", "bad", "c18-dup", [(TY, '\tif (!server.empty())\n\t\tss << "server: " << server << "\\r\\n";', '\tss << "server: " << (server.empty() ? std::string{"crab"} : server) << "\\r\\n";')]),
    ("C18", "bad", "c18-chunkedfirst", [(TY, '\t\tfor (const auto &te : req.transfer_encodings)\n\t\t\tss << (pos++ ? ", " : " ") << te;\n\t\tif (req.transfer_encoding_chunked)\n\t\t\tss << (pos++ ? ", chunked" : " chunked");', '\t\tif (req.transfer_encoding_chunked)\n\t\t\tss << (pos++ ? ", chunked" : " chunked");\n\t\tfor (const auto &te : req.transfer_encodings)\n\t\t\tss << (pos++ ? ", " : " ") << te;')]),
    ("C18", "bad", "c18-tesep", [(TY, 'ss << (pos++ ? ", chunked" : " chunked");', 'ss << (pos > 1 ? ", chunked" : " chunked");')]),
    ("C18", "bad", "c18-close", [(TY, '\t} else if (req.http_version_major == 1 && req.http_version_minor == 1 && !req.keep_alive) {\n\t\tss << "connection: close\\r\\n";\n', '\t} else if (req.http_version_major == 1 && req.http_version_minor == 1 && !req.keep_alive && !req.content_length) {\n\t\tss << "connection: close\\r\\n";\n')]),
    ("C18", "bad", "c18-trunc", [(TY, 'ss << "content-length: " << *req.content_length', 'ss << "content-length: " << static_cast<int>(*req.content_length)')]),
    ("C18", "bad", "c18-hex", [(TY, 'ss << "content-length: " << *req.content_length', 'ss << "content-length: " << std::hex << *req.content_length')]),
    ("C18", "bad", "c18-name", [(TY, 'ss << "sec-websocket-version: "', 'ss << "sec-websocket-version; "')]),
    ("C18", "bad", "c18-basic", [(TY, '"authorization: basic "', '"authorization: "')]),
    ("C18", "bad", "c18-query", [(TY, '\tss << method << " " << path;  // TODO - uri-encode path\n\tif (!query_string.empty())\n\t\tss << "?" << query_string;', '\tss << method << " " << path;  // TODO - uri-encode path\n\tif (!query_string.empty() && path.find(\'?\') == std::string::npos)\n\t\tss << "?" << query_string;')]),
    ("C18", "bad", "c18-lf", [(TY, 'ss << h.name << ": " << h.value << "\\r\\n";', 'ss << h.name << ": " << h.value << "\\n";')]),
    ("C18", "bad", "c18-host0", [(TY, '\tif (!origin.empty())\n\t\tss << "origin: "', '\tif (!origin.empty() && !host.empty())\n\t\tss << "origin: "')]),
    ("C18", "ok", "c18-string", [(TY, '\tif (!sec_websocket_accept.empty())\n\t\tss << "sec-websocket-accept: " << sec_websocket_accept << "\\r\\n";', '\tif (sec_websocket_accept.size() != 0) {\n\t\tstd::string line = "sec-websocket-accept: ";\n\t\tline += sec_websocket_accept;\n\t\tss << line << "\\r" << \'\\n\';\n\t}')]),
    ("C18", "ok", "c18-order", [(TY, '\tif (!host.empty())\n\t\tss << "host: " << host << "\\r\\n";\n\tif (!origin.empty())\n\t\tss << "origin: " << origin << "\\r\\n";\n', '\tif (!origin.empty())\n\t\tss << "origin: " << origin << "\\r\\n";\n\tif (!host.empty())\n\t\tss << "host: " << host << "\\r\\n";\n')]),
    ("C18", "ok", "c18-helper", [(TY, "CRAB_INLINE void to_string_common(", "inline void put_field(std::ostream &os, const char *name, const std::string &value) {\n\tif (value.empty())\n\t\treturn;\n\tos << name << \": \" << value << \"\\r\\n\";\n}\n\nCRAB_INLINE void to_string_common("), (TY, '\tif (!date.empty())\n\t\tss << "date: " << date << "\\r\\n";\n\tif (!server.empty())\n\t\tss << "server: " << server << "\\r\\n";\n', '\tdetails::put_field(ss, "date", date);\n\tdetails::put_field(ss, "server", server);\n')]),
    ("C18", "ok", "c18-tefirst", [(TY, '\t\tfor (const auto &te : req.transfer_encodings)\n\t\t\tss << (pos++ ? ", " : " ") << te;\n', '\t\tfor (size_t i = 0; i != req.transfer_encodings.size(); ++i, ++pos) {\n\t\t\tif (i)\n\t\t\t\tss << ",";\n\t\t\tss << " " << req.transfer_encodings[i];\n\t\t}\n')]),
]

WX, WH = "http/web_message_parser.hxx", "http/web_message_parser.hpp"
M += [
    ("C19", "bad", "c19-len126", [(WX, "if (payload_len < 126) {", "if (payload_len <= 126) {")]),
    ("C19", "bad", "c19-len65536", [(WX, "} else if (payload_len < 65536) {", "} else if (payload_len <= 65536) {")]),
    ("C19", "bad", "c19-short", [(WX, "} else if (payload_len < 65536) {", "} else if (payload_len < 65535) {")]),
    ("C19", "bad", "c19-maskbit", [(WX, "buffer[pos++] = 127 | (masking_key ? 0x80 : 0);", "buffer[pos++] = 127 | (masking_key && *masking_key ? 0x80 : 0);")]),
    ("C19", "bad", "c19-key", [(WX, "\tif (masking_key)\n\t\tfor (size_t i = 4; i-- > 0;)\n\t\t\tbuffer[pos++] = *masking_key >> i * 8;", "\tif (masking_key) {\n\t\tuint32_t mk = *masking_key;\n\t\tstd::memcpy(buffer + pos, &mk, 4);\n\t\tpos += 4;\n\t}")]),
    ("C19", "bad", "c19-rsv", [(WX, "if (input & 0x70)", "if (input & 0x60)")]),
    ("C19", "bad", "c19-opcode", [(WH, "\t\tcase 0:  // Continuation\n", "\t\tcase 0:  // Continuation\n\t\tcase 11:\n")]),
    ("C19", "bad", "c19-nocont", [(WH, "\t\tcase 0:  // Continuation\n", "")]),
    ("C19", "bad", "c19-top", [(WX, "if (payload_len >> 63)", "if (payload_len >> 64 - 0 - 0 == 1)".replace("64 - 0 - 0", "62"))]),
    ("C19", "bad", "c19-sign", [(WX, "payload_len = (payload_len << 8) + input;", "payload_len = (payload_len << 8) + static_cast<int8_t>(input);")]),
    ("C19", "bad", "c19-ctl", [(WX, "(opcode & 0x08) != 0 && payload_len > 125", "(opcode & 0x08) != 0 && payload_len > 126")]),
    ("C19", "bad", "c19-skipmask", [(WX, "\t\t\tthrow std::runtime_error{\"Most significant bit of payload_len must be 0\"};\n\t\tif (masking_key) {", "\t\t\tthrow std::runtime_error{\"Most significant bit of payload_len must be 0\"};\n\t\tif (masking_key && payload_len) {")]),
    ("C19", "ok", "c19-or", [(WX, "*masking_key = (*masking_key << 8) + input;", "*masking_key = (*masking_key << 8) | input;"), (WX, "payload_len = (payload_len << 8) + input;", "payload_len = payload_len * 256 + input;")]),
    ("C19", "ok", "c19-helper", [(WX, "CRAB_INLINE WebMessageHeaderSaver::WebMessageHeaderSaver(", "inline uint8_t *put_be(uint8_t *p, uint64_t v, int n) {\n\twhile (n-- > 0)\n\t\t*p++ = static_cast<uint8_t>(v >> (8 * n));\n\treturn p;\n}\n\nCRAB_INLINE WebMessageHeaderSaver::WebMessageHeaderSaver("), (WX, "\t\tfor (size_t i = 8; i-- > 0;)\n\t\t\tbuffer[pos++] = static_cast<uint8_t>(payload_len >> i * 8);", "\t\tpos = put_be(buffer + pos, payload_len, 8) - buffer;")]),
    ("C19", "ok", "c19-rawopcode", [(WH, "\t\tswitch (opcode) {\n\t\tcase 0:  // Continuation\n\t\tcase static_cast<int>(WebMessageOpcode::TEXT):\n\t\tcase static_cast<int>(WebMessageOpcode::BINARY):\n\t\tcase static_cast<int>(WebMessageOpcode::CLOSE):\n\t\tcase static_cast<int>(WebMessageOpcode::PING):\n\t\tcase static_cast<int>(WebMessageOpcode::PONG):\n\t\t\treturn true;\n\t\tdefault:\n\t\t\tbreak;\n\t\t}\n\t\treturn false;", "\t\treturn (opcode >= 0 && opcode <= 2) || (opcode >= 8 && opcode <= 10);")]),
    ("C19", "ok", "c19-earlyctl", [(WX, "\t\tif (!is_opcode_supported(opcode))\n\t\t\tthrow std::runtime_error{\"Invalid opcode\"};\n", "\t\tif (!is_opcode_supported(opcode))\n\t\t\tthrow std::runtime_error{\"Invalid opcode\"};\n\t\tif ((opcode & 0x08) != 0 && !fin)\n\t\t\tthrow std::runtime_error{\"Control frame must not be fragmented\"};\n")]),
]


def in_server(old, new):
    """the first match after the start of the server's part of connection.hxx"""
    t = open("/repo/include/crab/http/connection.hxx").read()
    i = t.index("ServerConnection::ServerConnection(")
    j = t.index(old, i)
    for k in range(j, -1, -1):
        if t.count(t[k:j + len(old)]) == 1 and t[k - 1] == "\n":
            return (C, t[k:j + len(old)], t[k:j] + new)


M += [
    ("C20", "bad", "c20-nomask", [(C, "\tWebMessageHeaderParser::mask_data(0, &message.body[0], message.body.size(), masking_key);\n", "\tif (message.opcode != WebMessageOpcode::PONG)\n\t\tWebMessageHeaderParser::mask_data(0, &message.body[0], message.body.size(), masking_key);\n")]),
    ("C20", "bad", "c20-wrongkey", [(C, "WebMessageHeaderSaver header{true, static_cast<int>(message.opcode), message.body.size(), masking_key};", "WebMessageHeaderSaver header{true, static_cast<int>(message.opcode), message.body.size(), RunLoop::current()->rnd.pod<uint32_t>()};")]),
    ("C20", "bad", "c20-servermask", [(C, "WebMessageHeaderSaver header{false, 0, ss.size(), {}};", "WebMessageHeaderSaver header{false, 0, ss.size(), optional<uint32_t>(0)};")]),
    ("C20", "bad", "c20-126", [in_server("if (message.body.size() > 125)", "if (message.body.size() > 126)")]),
    ("C20", "bad", "c20-closetrunc", [(C, "\t\tif (message.body.size() > 125)\n\t\t\tmessage.body.resize(125);", "\t\telse if (message.body.size() > 125)\n\t\t\tmessage.body.resize(125);")]),
    ("C20", "bad", "c20-contop", [(C, "WebMessageHeaderSaver header{false, 0, count, {}};", "WebMessageHeaderSaver header{false, static_cast<int>(WebMessageOpcode::BINARY), count, {}};")]),
    ("C20", "bad", "c20-lastfin", [(C, "WebMessageHeaderSaver header{true, 0, 0, {}};", "WebMessageHeaderSaver header{false, 0, 0, {}};")]),
    ("C20", "bad", "c20-flag", [(C, "\t\twriting_web_message_body = false;\n\t\treturn;", "\t\tif (bo == BufferOptions::WRITE)\n\t\t\twriting_web_message_body = false;\n\t\treturn;")]),
    ("C20", "bad", "c20-begin2", [(C, "\t\tinvariant(!writing_web_message_body, \"Sending new message before previous one finished\");\n\t} else {", "\t} else {")]),
    ("C20", "bad", "c20-streamctl", [(C, "\tinvariant(opcode == WebMessageOpcode::TEXT || opcode == WebMessageOpcode::BINARY, \"Control frames must not be fragmented\");\n", "")]),
    ("C20", "bad", "c20-lenbefore", [(C, "\tif (remaining_body_content_length) {\n\t\tinvariant(count <=", "\tif (remaining_body_content_length) {\n\t\tinvariant(count <=")] + [in_server("\t\tif (message.body.size() > 125)\n\t\t\tmessage.body.resize(125);\n\t}\n\tWebMessageHeaderSaver header{true, static_cast<int>(message.opcode), message.body.size(), {}};", "\t}\n\tWebMessageHeaderSaver header{true, static_cast<int>(message.opcode), std::min<size_t>(message.body.size(), 125), {}};")]),
    ("C20", "bad", "c20-closecode", [(C, "close_code", "close_code")] + [(C, "std::string web_message_create_close_body(const std::string &reason, uint16_t close_code) {", "std::string web_message_create_close_body(const std::string &reason, uint16_t close_code) {\n\tclose_code &= 0x0fff;")]),
    ("C20", "bad", "c20-pongdata", [in_server("WebMessage nop(WebMessageOpcode::PONG, wm_body_parser.body.clear());", "WebMessage nop(wm_header_parser.fin ? WebMessageOpcode::PONG : WebMessageOpcode::TEXT, wm_body_parser.body.clear());\n\t\t\t\t\tif (nop.body.size() == 125) nop.opcode = WebMessageOpcode::BINARY;")]),
    ("C20", "ok", "c20-resize", [(C, "\t\tif (message.body.size() > 125)\n\t\t\tmessage.body.resize(125);", "\t\tif (message.body.size() > 125)\n\t\t\tmessage.body = message.body.substr(0, 125);")]),
    ("C20", "ok", "c20-onewrite", [in_server("\tsock.buffer(header.data(), header.size());\n\tsock.write(std::move(message.body), bo);", "\tstd::string head(reinterpret_cast<const char *>(header.data()), header.size());\n\tsock.buffer(std::move(head));\n\tsock.write(std::move(message.body), bo);")]),
    ("C20", "ok", "c20-helper", [in_server("\tif (writing_web_message_body) {\n\t\tif (ss.size() == 0)\n\t\t\treturn;\n\t\tWebMessageHeaderSaver header{false, 0, ss.size(), {}};\n\t\tsock.buffer(header.data(), header.size());\n\t\tsock.write(std::move(ss), bo);\n\t\tif (bo == BufferOptions::WRITE)\n\t\t\twm_ping_timer.once(WM_PING_TIMEOUT_SEC);\n\t\treturn;", "\tif (writing_web_message_body) {\n\t\twrite(uint8_cast(ss.data()), ss.size(), bo);\n\t\treturn;")]),
    ("C20", "ok", "c20-oncreate", [(C, "\tauto masking_key = RunLoop::current()->rnd.pod<uint32_t>();\n\tif (message.opcode", "\tconst bool is_control = message.opcode != WebMessageOpcode::TEXT && message.opcode != WebMessageOpcode::BINARY;\n\tconst uint32_t masking_key = RunLoop::current()->rnd.pod<uint32_t>();\n\tif (!is_control || message.opcode")]),
    ("C21", "bad", "c21-hdrnext", [(C, "\t\t\t\tif (wm_header_parser.opcode == static_cast<int>(WebMessageOpcode::PONG)) {\n\t\t\t\t\twm_header_parser = WebMessageHeaderParser{};\n", "\t\t\t\tif (wm_header_parser.opcode == static_cast<int>(WebMessageOpcode::PONG)) {\n")]),
    ("C21", "bad", "c21-pingkeep", [in_server("\t\t\t\t\tstate            = WEB_MESSAGE_HEADER;\n\t\t\t\t\twrite(std::move(nop));", "\t\t\t\t\tweb_message.reset();\n\t\t\t\t\tstate            = WEB_MESSAGE_HEADER;\n\t\t\t\t\twrite(std::move(nop));")]),
    ("C21", "bad", "c21-contstart", [(C, "\t\t\t\t\tif (wm_header_parser.opcode == 0)\n\t\t\t\t\t\tthrow std::runtime_error{\"Continuation in the first chunk\"};\n", "\t\t\t\t\tif (wm_header_parser.opcode == 0 && !wm_header_parser.fin)\n\t\t\t\t\t\tthrow std::runtime_error{\"Continuation in the first chunk\"};\n")]),
    ("C21", "bad", "c21-restart", [in_server("if (wm_header_parser.opcode != 0)", "if (wm_header_parser.opcode != 0 && wm_header_parser.opcode != static_cast<int>(web_message->opcode))")]),
    ("C21", "bad", "c21-utf8last", [(C, "if (web_message->is_text() && !is_valid_utf8(web_message->body)) {", "if (wm_header_parser.opcode == static_cast<int>(WebMessageOpcode::TEXT) && !is_valid_utf8(web_message->body)) {")]),
    ("C21", "bad", "c21-order", [(C, "web_message->body += wm_body_parser.body.clear();", "web_message->body = wm_body_parser.body.clear() + web_message->body;")]),
    ("C21", "bad", "c21-noreset", [in_server("\tmessage = std::move(*web_message);\n\tweb_message.reset();", "\tmessage = *web_message;\n\tif (message.is_binary())\n\t\tweb_message.reset();")]),
    ("C21", "bad", "c21-readstream", [(C, "\t// do not process new request if data waiting to be sent\n\tif (sock.get_total_buffer_size() != 0)\n\t\treturn false;\n\ttry {\n\t\twhile (true) {\n\t\t\tif (read_buffer.empty() && read_buffer.read_from(sock) == 0)\n\t\t\t\treturn false;\n\t\t\tswitch (state) {\n\t\t\tcase RESPONSE_HEADER:", "\t// do not process new request if data waiting to be sent\n\tif (sock.get_total_buffer_size() != 0)\n\t\treturn false;\n\ttry {\n\t\twhile (true) {\n\t\t\tif (read_buffer.empty() && read_buffer.read_from(sock) == 0)\n\t\t\t\treturn false;\n\t\t\tswitch (state) {\n\t\t\tcase WEB_MESSAGE_READY:\n\t\t\t\tstate = WEB_MESSAGE_HEADER;\n\t\t\t\tcontinue;\n\t\t\tcase RESPONSE_HEADER:")]),
    ("C21", "bad", "c21-closecode", [in_server("if (body.size() >= 2) {", "if (body.size() > 2) {")]),
    ("C21", "bad", "c21-closesigned", [in_server("(uint8_cast(body.data())[0] << 8) + uint8_cast(body.data())[1]", "(uint8_cast(body.data())[0] << 8) + body.data()[1]")]),
    ("C21", "bad", "c21-closereason", [(C, "if (!is_valid_utf8(web_message->body))\n\t\t\t\t\t\t\tweb_message->body.clear();", "if (!is_valid_utf8(body))\n\t\t\t\t\t\t\tweb_message->body.clear();")]),
    ("C21", "bad", "c21-finold", [in_server("\t\t\t\tif (!wm_header_parser.fin) {\n\t\t\t\t\twm_header_parser = WebMessageHeaderParser{};\n\t\t\t\t\tstate            = WEB_MESSAGE_HEADER;\n\t\t\t\t\tcontinue;", "\t\t\t\tif (!wm_header_parser.fin && web_message->body.size() < (1u << 20)) {\n\t\t\t\t\twm_header_parser = WebMessageHeaderParser{};\n\t\t\t\t\tstate            = WEB_MESSAGE_HEADER;\n\t\t\t\t\tcontinue;")]),
    ("C21", "bad", "c21-bodyparser", [(C, "wm_body_parser = WebMessageBodyParser{wm_header_parser.payload_len, wm_header_parser.masking_key};", "wm_body_parser = WebMessageBodyParser{wm_header_parser.payload_len, wm_header_parser.fin ? wm_header_parser.masking_key : optional<uint32_t>()};")]),
    ("C21", "bad", "c21-told", [in_server("\t\t\t\tstate = WEB_MESSAGE_READY;\n\t\t\t\treturn true;\n\t\t\tdefault:", "\t\t\t\tstate = WEB_MESSAGE_READY;\n\t\t\t\treturn !web_message->body.empty();\n\t\t\tdefault:")]),
    ("C21", "ok", "c21-append", [(C, "web_message->body += wm_body_parser.body.clear();", "web_message->body.append(wm_body_parser.body.clear());")]),
    ("C21", "ok", "c21-order2", [in_server("\tmessage = std::move(*web_message);\n\tweb_message.reset();\n\twm_header_parser = WebMessageHeaderParser{};\n\tstate            = WEB_MESSAGE_HEADER;", "\tstate            = WEB_MESSAGE_HEADER;\n\twm_header_parser = WebMessageHeaderParser{};\n\tmessage = std::move(*web_message);\n\tweb_message.reset();")]),
    ("C21", "ok", "c21-swap", [(C, "\t\t\t\tif (wm_header_parser.opcode == static_cast<int>(WebMessageOpcode::PONG)) {\n\t\t\t\t\twm_header_parser = WebMessageHeaderParser{};\n\t\t\t\t\tstate            = WEB_MESSAGE_HEADER;\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n", ""), (C, "\t\t\t\tif (wm_header_parser.opcode == static_cast<int>(WebMessageOpcode::PING)) {\n", "\t\t\t\tif (wm_header_parser.opcode == static_cast<int>(WebMessageOpcode::PONG)) {\n\t\t\t\t\twm_header_parser = WebMessageHeaderParser{};\n\t\t\t\t\tstate            = WEB_MESSAGE_HEADER;\n\t\t\t\t\tcontinue;\n\t\t\t\t}\n\t\t\t\tif (wm_header_parser.opcode == static_cast<int>(WebMessageOpcode::PING)) {\n")]),
    ("C21", "ok", "c21-isctl", [in_server("\t\t\t\tif (!web_message) {\n\t\t\t\t\tif (wm_header_parser.opcode == 0)\n\t\t\t\t\t\tthrow std::runtime_error{\"Continuation in the first chunk\"};\n", "\t\t\t\tif (!web_message == (wm_header_parser.opcode == 0))\n\t\t\t\t\tthrow std::runtime_error{\"Fragment out of sequence\"};\n\t\t\t\tif (!web_message) {\n")]),
]
M += [
    ("C22", "bad", "c22-overshoot", [(C, "\t\tinvariant(ss.size() <= *remaining_body_content_length, \"Overshoot content-length\");\n", "\t\tinvariant(ss.size() <= *remaining_body_content_length || request_parser.req.method == \"HEAD\", \"Overshoot content-length\");\n")]),
    ("C22", "bad", "c22-oversent", [(C, "\t\tinvariant(count <= *remaining_body_content_length, \"Overshoot content-length\");\n\t\t*remaining_body_content_length -= count;\n\t\tsock.write(val, count, bo);", "\t\tsock.write(val, count, bo);\n\t\tinvariant(count <= *remaining_body_content_length, \"Overshoot content-length\");\n\t\t*remaining_body_content_length -= count;")]),
    ("C22", "bad", "c22-oversub", [(C, "\t\tinvariant(count <= *remaining_body_content_length, \"Overshoot content-length\");\n\t\t*remaining_body_content_length -= count;", "\t\tconst bool fits = count <= *remaining_body_content_length;\n\t\t*remaining_body_content_length -= count;\n\t\tinvariant(fits, \"Overshoot content-length\");")]),
    ("C22", "bad", "c22-emptychunk", [(C, "\tif (ss.empty())\n\t\treturn;  // Empty chunk is terminator\n", "")]),
    ("C22", "bad", "c22-dec", [in_server("std::sprintf(buf, \"%llx\\r\\n\", (unsigned long long)ss.size());", "std::sprintf(buf, \"%llu\\r\\n\", (unsigned long long)ss.size());")]),
    ("C22", "bad", "c22-trunc", [(C, "(unsigned long long)count);", "(unsigned long long)(unsigned)count);")]),
    ("C22", "bad", "c22-afterchunk", [(C, "\tsock.buffer(val, count);\n\tsock.write(\"\\r\\n\", 2, bo);", "\tsock.write(val, count, bo);\n\tif (bo == WRITE)\n\t\tsock.write(\"\\r\\n\", 2, bo);")]),
    ("C22", "bad", "c22-keepafter", [(C, "\tif (request_parser.req.keep_alive)  // No socket event will come for bytes we already have, or ignored while writing body\n\t\tnext_request_timer.once(0);\n\trequest_parser = RequestParser{};", "\trequest_parser = RequestParser{};\n\tif (!request_parser.req.keep_alive)\n\t\tnext_request_timer.once(0);")]),
    ("C22", "bad", "c22-lastnoshut", [(C, "\tsock.write(std::string{\"0\\r\\n\\r\\n\"}, bo);\n\tif (!request_parser.req.keep_alive) {", "\tsock.write(std::string{\"0\\r\\n\\r\\n\"}, bo);\n\tif (!request_parser.req.keep_alive && bo == WRITE) {")]),
    ("C22", "bad", "c22-shutfirst", [(C, "\t\t*remaining_body_content_length -= ss.size();\n\t\tsock.write(std::move(ss), bo);\n\t\tif (*remaining_body_content_length == 0) {\n\t\t\tif (!request_parser.req.keep_alive) {  // We sent it in our response header\n\t\t\t\tread_buffer.clear();\n\t\t\t\tsock.write_shutdown();\n\t\t\t}\n", "\t\t*remaining_body_content_length -= ss.size();\n\t\tif (*remaining_body_content_length == 0 && !request_parser.req.keep_alive)\n\t\t\tsock.write_shutdown();\n\t\tsock.write(std::move(ss), bo);\n\t\tif (*remaining_body_content_length == 0) {\n\t\t\tif (!request_parser.req.keep_alive) {  // We sent it in our response header\n\t\t\t\tread_buffer.clear();\n\t\t\t}\n")]),
    ("C22", "bad", "c22-clkept", [(C, "\tif (resp.transfer_encoding_chunked)\n\t\tresp.content_length.reset();  // Chunked encoding overrides it\n\tremaining_body_content_length = resp.content_length;", "\tremaining_body_content_length = resp.content_length;\n\tif (resp.transfer_encoding_chunked)\n\t\tresp.content_length.reset();  // Chunked encoding overrides it")]),
    ("C22", "bad", "c22-keepuser", [(C, "\tresp.keep_alive         = request_parser.req.keep_alive;\n", "\tresp.keep_alive         = resp.keep_alive && request_parser.req.keep_alive;\n")]),
    ("C22", "bad", "c22-reqkeep", [(C, "\trequest_parser.req.keep_alive            = req.header.keep_alive;\n", "\trequest_parser.req.keep_alive            = req.header.keep_alive || req.header.connection_upgrade;\n")]),
    ("C22", "bad", "c22-wholeflush", [(C, "write(std::move(resp.body), transfer_encoding_chunked ? BUFFER_ONLY : WRITE);", "write(std::move(resp.body), BUFFER_ONLY);")]),
    ("C22", "bad", "c22-noheader", [(C, "invariant(state == RESPONSE_HEADER, \"Connection unexpected write\");\n\tinvariant(!resp", "invariant(state == RESPONSE_HEADER || state == REQUEST_READY, \"Connection unexpected write\");\n\tinvariant(!resp")]),
    ("C22", "bad", "c22-lastlen", [(C, "\tinvariant(!remaining_body_content_length, \"write_last_chunk is for chunked encoding only\");\n", "\tif (remaining_body_content_length && *remaining_body_content_length == 0)\n\t\treturn;\n")]),
    ("C22", "ok", "c22-helper", [(C, "\t\tinvariant(ss.size() <= *remaining_body_content_length, \"Overshoot content-length\");\n\t\t*remaining_body_content_length -= ss.size();\n\t\tsock.write(std::move(ss), bo);\n\t\tif (*remaining_body_content_length == 0) {\n\t\t\tif (!request_parser.req.keep_alive) {  // We sent it in our response header\n\t\t\t\tread_buffer.clear();\n\t\t\t\tsock.write_shutdown();\n\t\t\t}\n\t\t\twait_next_request();\n\t\t}\n\t\treturn;", "\t\tauto &left = *remaining_body_content_length;\n\t\tinvariant(left >= ss.size(), \"Overshoot content-length\");\n\t\tleft -= ss.size();\n\t\tconst bool done = left == 0;\n\t\tsock.write(std::move(ss), bo);\n\t\tif (!done)\n\t\t\treturn;\n\t\tif (!request_parser.req.keep_alive) {\n\t\t\tread_buffer.clear();\n\t\t\tsock.write_shutdown();\n\t\t}\n\t\twait_next_request();\n\t\treturn;")]),
    ("C22", "ok", "c22-snprintf", [in_server("int buf_n = std::sprintf(buf, \"%llx\\r\\n\", (unsigned long long)ss.size());", "int buf_n = std::snprintf(buf, sizeof(buf), \"%lx\\r\\n\", (unsigned long)ss.size());")]),
    ("C22", "ok", "c22-delegate", [(C, "\tif (ss.empty())\n\t\treturn;  // Empty chunk is terminator\n\tchar buf[64]{};\n\tint buf_n = std::sprintf(buf, \"%llx\\r\\n\", (unsigned long long)ss.size());\n\tinvariant(buf_n > 0, \"sprintf error (unexpected)\");\n\tsock.buffer(buf, buf_n);\n\tsock.buffer(std::move(ss));\n\tsock.write(\"\\r\\n\", 2, bo);", "\twrite(uint8_cast(ss.data()), ss.size(), bo);")]),
    ("C22", "ok", "c22-crlf", [(C, "\tsock.buffer(val, count);\n\tsock.write(\"\\r\\n\", 2, bo);", "\tsock.buffer(val, count);\n\tsock.write(std::string{\"\\r\\n\"}, bo);")]),
    ("C22", "ok", "c22-append", [(C, "\tsock.buffer(buf, buf_n);\n\tsock.buffer(std::move(ss));\n\tsock.write(\"\\r\\n\", 2, bo);", "\tsock.buffer(buf, buf_n);\n\tss += \"\\r\\n\";\n\tsock.write(std::move(ss), bo);")]),
]
M += [
    ("C25", "bad", "c25-noaccept", [(C, "if (response_parser.req.sec_websocket_accept != ResponseHeader::generate_sec_websocket_accept(sec_websocket_key))", "if (response_parser.req.sec_websocket_accept.size() != ResponseHeader::generate_sec_websocket_accept(sec_websocket_key).size())")]),
    ("C25", "bad", "c25-keylate", [(C, "\t\tsec_websocket_key = req.header.sec_websocket_key;\n", "\t\tif (sec_websocket_key.empty())\n\t\t\tsec_websocket_key = req.header.sec_websocket_key;\n")]),
    ("C25", "bad", "c25-nobody", [(C, "if (response_parser.req.content_length || response_parser.req.transfer_encoding_chunked)", "if (response_parser.req.content_length && *response_parser.req.content_length != 0)")]),
    ("C25", "bad", "c25-unasked", [(C, "if (response_parser.req.is_websocket_upgrade())\n\t\t\t\t\tthrow", "if (response_parser.req.is_websocket_upgrade() && !sec_websocket_key.empty())\n\t\t\t\t\tthrow")]),
    ("C25", "bad", "c25-status", [(TY, "return status == 101 && connection_upgrade && upgrade_websocket && !sec_websocket_accept.empty();", "return (status == 101 || status == 200) && connection_upgrade && upgrade_websocket && !sec_websocket_accept.empty();")]),
    ("C25", "bad", "c25-version", [(TY, "sec_websocket_version == \"13\" && keep_alive;", "!sec_websocket_version.empty() && keep_alive;")]),
    ("C25", "bad", "c25-guid", [(TY, "hash.add(guid, sizeof(guid) - 1);", "hash.add(guid, sizeof(guid));")]),
    ("C25", "bad", "c25-order", [(TY, "\thash.add(sec_websocket_key.data(), sec_websocket_key.size());\n\thash.add(guid, sizeof(guid) - 1);", "\thash.add(guid, sizeof(guid) - 1);\n\thash.add(sec_websocket_key.data(), sec_websocket_key.size());")]),
    ("C25", "bad", "c25-srvkey", [(C, "\trequest_parser.req.sec_websocket_key     = req.header.sec_websocket_key;\n", "")]),
    ("C25", "bad", "c25-srvcheck", [(C, "if (!request_parser.req.is_websocket_upgrade())\n\t\tthrow std::runtime_error{\"Attempt", "if (!request_parser.req.upgrade_websocket || request_parser.req.sec_websocket_key.empty())\n\t\tthrow std::runtime_error{\"Attempt")]),
    ("C25", "bad", "c25-state", [(C, "\tif (req.header.is_websocket_upgrade()) {\n\t\tstate             = WEB_UPGRADE_RESPONSE_HEADER;", "\tif (req.header.upgrade_websocket) {\n\t\tstate             = WEB_UPGRADE_RESPONSE_HEADER;")]),
    ("C25", "bad", "c25-fixedkey", [(C, "\tRunLoop::current()->rnd.bytes(rdata, sizeof(rdata));\n\treq.header.sec", "\tif (rh.sec_websocket_key.empty())\n\t\tRunLoop::current()->rnd.bytes(rdata, sizeof(rdata));\n\treq.header.sec")]),
    ("C25", "bad", "c25-plain", [(C, "\tinvariant(!resp.is_websocket_upgrade(), \"Please use web_socket_upgrade() function for web socket upgrade\");\n", "")]),
    ("C25", "bad", "c25-early", [(C, "\t    state == WEB_MESSAGE_HEADER || state == WEB_MESSAGE_BODY || state == WEB_MESSAGE_READY || state == WEB_UPGRADE_RESPONSE_HEADER,", "\t    state >= RESPONSE_READY,")]),
    ("C25", "ok", "c25-early2", [(C, "\t    state == WEB_MESSAGE_HEADER || state == WEB_MESSAGE_BODY || state == WEB_MESSAGE_READY || state == WEB_UPGRADE_RESPONSE_HEADER,", "\t    state >= WEB_UPGRADE_RESPONSE_HEADER,")]),
    ("C25", "ok", "c25-concat", [(TY, "\thash.add(sec_websocket_key.data(), sec_websocket_key.size());\n\thash.add(guid, sizeof(guid) - 1);", "\tconst std::string text = sec_websocket_key + guid;\n\thash.add(text.data(), text.size());")]),
    ("C25", "ok", "c25-expected", [(C, "if (response_parser.req.sec_websocket_accept != ResponseHeader::generate_sec_websocket_accept(sec_websocket_key))", "const auto &expected = ResponseHeader::generate_sec_websocket_accept(sec_websocket_key);\n\t\t\t\tif (expected != response_parser.req.sec_websocket_accept)".replace("const auto &expected = ResponseHeader::generate_sec_websocket_accept(sec_websocket_key);\n\t\t\t\tif (expected != response_parser.req.sec_websocket_accept)", "if (!(ResponseHeader::generate_sec_websocket_accept(sec_websocket_key) == response_parser.req.sec_websocket_accept))"))]),
    ("C25", "ok", "c25-order2", [(TY, "\treturn status == 101 && connection_upgrade && upgrade_websocket && !sec_websocket_accept.empty();", "\tif (sec_websocket_accept.empty())\n\t\treturn false;\n\treturn upgrade_websocket && connection_upgrade && status == 101;")]),
]
_CATCH_C = "\t} catch (const std::exception &) {\n\t\tread_buffer.clear();\n\t\tsock.write_shutdown();\n\t\treturn true;\n\t}\n}\n\nCRAB_INLINE ServerConnection::ServerConnection("
M += [
    ("C24", "bad", "c24-runtime", [in_server("\t} catch (const std::exception &) {\n\t\twm_ping_timer.cancel();", "\t} catch (const std::runtime_error &) {\n\t\twm_ping_timer.cancel();")]),
    ("C24", "bad", "c24-noshut", [in_server("\t\twm_ping_timer.cancel();\n\t\tread_buffer.clear();\n\t\tsock.write_shutdown();\n\t\treturn true;", "\t\twm_ping_timer.cancel();\n\t\tread_buffer.clear();\n\t\tif (is_state_websocket())\n\t\t\tsock.write_shutdown();\n\t\treturn true;")]),
    ("C24", "bad", "c24-noclear", [in_server("\t\twm_ping_timer.cancel();\n\t\tread_buffer.clear();\n\t\tsock.write_shutdown();\n\t\treturn true;", "\t\twm_ping_timer.cancel();\n\t\tsock.write_shutdown();\n\t\treturn true;")]),
    ("C24", "bad", "c24-outside", [in_server("\tif (sock.get_total_buffer_size() != 0)\n\t\treturn false;\n\ttry {", "\tif (sock.get_total_buffer_size() != 0)\n\t\treturn false;\n\tif (state == REQUEST_HEADER && !read_buffer.empty())\n\t\trequest_parser.parse(read_buffer);\n\ttry {")]),
    ("C24", "bad", "c24-rethrow", [(C, _CATCH_C, _CATCH_C.replace("\t\treturn true;", "\t\tif (state < WEB_UPGRADE_RESPONSE_HEADER)\n\t\t\tthrow;\n\t\treturn true;"))]),
    ("C24", "bad", "c24-type", [(WX, "throw std::runtime_error{\"Invalid opcode\"}", "throw \"Invalid opcode\"")]),
    ("C24", "bad", "c24-pingphase", [in_server("\twm_ping_timer.cancel();\n\tnext_request_timer.cancel();\n\tweb_message.reset();", "\tnext_request_timer.cancel();\n\tweb_message.reset();")]),
    ("C24", "bad", "c24-pingarm", [in_server("\trequest_parser = RequestParser{};\n\tstate          = REQUEST_HEADER;\n}\n\nCRAB_INLINE void ServerConnection::close()", "\trequest_parser = RequestParser{};\n\tstate          = REQUEST_HEADER;\n\twm_ping_timer.once(WM_PING_TIMEOUT_SEC);\n}\n\nCRAB_INLINE void ServerConnection::close()")]),
    ("C24", "bad", "c24-deliver", [(C, _CATCH_C, _CATCH_C.replace("\t\tread_buffer.clear();", "\t\tread_buffer.clear();\n\t\tif (web_message)\n\t\t\tstate = WEB_MESSAGE_READY;"))]),
    ("C24", "bad", "c24-continue", [in_server("\t\t\t\trequest_parser.parse(read_buffer);\n", "\t\t\t\ttry {\n\t\t\t\t\trequest_parser.parse(read_buffer);\n\t\t\t\t} catch (const std::length_error &) {\n\t\t\t\t\trequest_parser = RequestParser{};\n\t\t\t\t}\n")]),
    ("C24", "bad", "c24-global", [in_server("\t\twm_ping_timer.cancel();\n\t\tread_buffer.clear();\n\t\tsock.write_shutdown();\n\t\treturn true;", "\t\tstatic int failures = 0;\n\t\tfailures += 1;\n\t\twm_ping_timer.cancel();\n\t\tread_buffer.clear();\n\t\tsock.write_shutdown();\n\t\treturn true;")]),
    ("C24", "ok", "c24-static", [in_server("\t\twm_ping_timer.cancel();\n\t\tread_buffer.clear();\n\t\tsock.write_shutdown();\n\t\treturn true;", "\t\tstatic const std::string reason = \"bad input\";\n\t\twm_ping_timer.cancel();\n\t\tread_buffer.clear();\n\t\tsock.write_shutdown();\n\t\treturn !reason.empty();")]),
    ("C24", "ok", "c24-helper", [in_server("\t\twm_ping_timer.cancel();\n\t\tread_buffer.clear();\n\t\tsock.write_shutdown();\n\t\treturn true;", "\t\tauto fail = [this]() {\n\t\t\tsock.write_shutdown();\n\t\t\tread_buffer.clear();\n\t\t\twm_ping_timer.cancel();\n\t\t};\n\t\tfail();\n\t\treturn true;")]),
    ("C24", "ok", "c24-ellipsis", [in_server("\t} catch (const std::exception &) {\n\t\twm_ping_timer.cancel();", "\t} catch (...) {\n\t\twm_ping_timer.cancel();")]),
    ("C24", "ok", "c24-flag", [(C, _CATCH_C, _CATCH_C.replace("\t\tread_buffer.clear();\n\t\tsock.write_shutdown();\n\t\treturn true;\n\t}\n", "\t}\n\tread_buffer.clear();\n\tsock.write_shutdown();\n\treturn true;\n"))]),
    ("C24", "ok", "c24-two", [in_server("\t} catch (const std::exception &) {\n\t\twm_ping_timer.cancel();", "\t} catch (const std::runtime_error &) {\n\t\twm_ping_timer.cancel();\n\t\tread_buffer.clear();\n\t\tsock.write_shutdown();\n\t\treturn true;\n\t} catch (const std::exception &) {\n\t\twm_ping_timer.cancel();")]),
]
M += [
    ("C27", "bad", "c27-over", [(C, "\tif (data_to_write.empty()) {\n\t\tsize_t wr = sock.write_some(val, count);\n\t\tval += wr;\n\t\tcount -= wr;\n\t}\n", "\tif (data_to_write.size() < 2) {\n\t\tsize_t wr = sock.write_some(val, count);\n\t\tval += wr;\n\t\tcount -= wr;\n\t}\n")]),
    ("C27", "bad", "c27-val", [(C, "\t\tsize_t wr = sock.write_some(val, count);\n\t\tval += wr;\n\t\tcount -= wr;\n", "\t\tsize_t wr = sock.write_some(val, count);\n\t\tcount -= wr;\n")]),
    ("C27", "bad", "c27-total", [(C, "\ttotal_data_to_write += ss.size();\n\tif (!data_to_write.empty() && data_to_write.back().size() < 1024 && ss.size() < 1024)  // TODO - constant\n\t\tdata_to_write.back().write(ss.data(), ss.size());\n\telse\n\t\tdata_to_write.emplace_back(std::move(ss));", "\tif (!data_to_write.empty() && data_to_write.back().size() < 1024 && ss.size() < 1024)  // TODO - constant\n\t\tdata_to_write.back().write(ss.data(), ss.size());\n\telse\n\t\tdata_to_write.emplace_back(std::move(ss));\n\ttotal_data_to_write += ss.size();")]),
    ("C27", "bad", "c27-front", [(C, "\t\tdata_to_write.back().write(val, count);", "\t\tdata_to_write.front().write(val, count);")]),
    ("C27", "bad", "c27-break", [(C, "\t\tif (!data_to_write.front().empty())\n\t\t\tbreak;\n", "\t\tif (!data_to_write.front().empty() && !sock.can_write())\n\t\t\tbreak;\n")]),
    ("C27", "bad", "c27-popfirst", [(C, "\t\ttotal_data_to_write -= data_to_write.front().write_to(sock);\n\t\tif (!data_to_write.front().empty())\n\t\t\tbreak;\n", "\t\tauto wr = data_to_write.front().write_to(sock);\n\t\ttotal_data_to_write -= wr;\n\t\tif (wr == 0)\n\t\t\tbreak;\n")]),
    ("C27", "bad", "c27-asked", [(C, "CRAB_INLINE void BufferedTCPSocket::buffer(const uint8_t *val, size_t count) {\n\tif (!sock.is_open() || write_shutdown_asked || count == 0)", "CRAB_INLINE void BufferedTCPSocket::buffer(const uint8_t *val, size_t count) {\n\tif (!sock.is_open() || write_shutdown_sent || count == 0)")]),
    ("C27", "bad", "c27-sentflag", [(C, "\twrite_shutdown_sent  = false;\n", "")]),
    ("C27", "bad", "c27-timer", [(C, "\tshutdown_timer.cancel();\n\tdata_to_write.clear();", "\tdata_to_write.clear();")]),
    ("C27", "bad", "c27-noarm", [(C, "\tsock.write_shutdown();\n\tshutdown_timer.once(WM_SHUTDOWN_TIMEOUT_SEC);\n", "\tsock.write_shutdown();\n")]),
    ("C27", "bad", "c27-canwrite", [(C, "|| !data_to_write.empty() || !sock.can_write())", "|| !data_to_write.empty())")]),
    ("C27", "bad", "c27-early", [(C, "write_shutdown_sent || !data_to_write.empty() || !sock.can_write())", "write_shutdown_sent || data_to_write.size() > 1 || !sock.can_write())")]),
    ("C27", "bad", "c27-forget", [(C, "\t\tdata_to_write.pop_front();\n\t}\n\tsend_shutdown();\n", "\t\tdata_to_write.pop_front();\n\t\tif (data_to_write.empty())\n\t\t\treturn;\n\t}\n\tsend_shutdown();\n")]),
    ("C27", "bad", "c27-read", [(C, "\tif (write_shutdown_asked)\n\t\treturn 0;\n\treturn sock.read_some(val, count);", "\tif (write_shutdown_sent)\n\t\treturn 0;\n\treturn sock.read_some(val, count);")]),
    ("C27", "bad", "c27-timeout", [(C, "CRAB_INLINE void BufferedTCPSocket::shutdown_timer_handler() {\n\tclose();\n", "CRAB_INLINE void BufferedTCPSocket::shutdown_timer_handler() {\n\tif (sock.can_write())\n\t\tclose();\n")]),
    ("C27", "bad", "c27-writesome", [(C, "\tif (write_shutdown_asked || !data_to_write.empty())\n\t\treturn 0;\n\treturn sock.write_some", "\tif (write_shutdown_asked || total_data_to_write >= 1024)\n\t\treturn 0;\n\treturn sock.write_some")]),
    ("C27", "bad", "c27-twice", [(C, "\twrite_shutdown_sent = true;\n\tsock.write_shutdown();", "\twrite_shutdown_sent = sock.is_open() && write_shutdown_sent;\n\tsock.write_shutdown();")]),
    ("C27", "ok", "c27-early-write", [(C, "\tif (data_to_write.empty()) {\n\t\tsize_t wr = sock.write_some(val, count);\n\t\tval += wr;\n\t\tcount -= wr;\n\t}\n\tbuffer(val, count);\n\twrite();", "\tconst size_t wr = write_some(val, count);\n\tbuffer(val + wr, count - wr);\n\twrite();")]),
    ("C27", "ok", "c27-thresh", [(C, "data_to_write.back().size() < 1024 && count < 1024)", "data_to_write.back().size() + count < 4096)")]),
    ("C27", "ok", "c27-for", [(C, "\twhile (!data_to_write.empty()) {\n\t\ttotal_data_to_write -= data_to_write.front().write_to(sock);\n\t\tif (!data_to_write.front().empty())\n\t\t\tbreak;\n\t\tdata_to_write.pop_front();\n\t}\n", "\tfor (; !data_to_write.empty(); data_to_write.pop_front()) {\n\t\tauto &chunk     = data_to_write.front();\n\t\tconst size_t wr = chunk.write_to(sock);\n\t\ttotal_data_to_write -= wr;\n\t\tif (chunk.size() != 0)\n\t\t\tbreak;\n\t}\n")]),
    ("C27", "ok", "c27-append", [(C, "\telse\n\t\tdata_to_write.emplace_back(std::string(reinterpret_cast<const char *>(val), count));", "\telse {\n\t\tstd::string copy(reinterpret_cast<const char *>(val), count);\n\t\tdata_to_write.push_back(StringStream(std::move(copy)));\n\t}")]),
    ("C27", "ok", "c27-delegate", [(C, "\ttotal_data_to_write += ss.size();\n\tif (!data_to_write.empty() && data_to_write.back().size() < 1024 && ss.size() < 1024)  // TODO - constant\n\t\tdata_to_write.back().write(ss.data(), ss.size());\n", "\tif (!data_to_write.empty() && data_to_write.back().size() < 1024 && ss.size() < 1024)\n\t\treturn buffer(uint8_cast(ss.data()), ss.size());\n\ttotal_data_to_write += ss.size();\n\tif (false)\n\t\treturn;\n")]),
]
SX, SH = "streams.hxx", "streams.hpp"
M += [
    ("C26", "bad", "c26-read-noadvance", [(SX, "\tstd::memcpy(val, read_ptr(), rc);\n\tdid_read(rc);\n", "\tstd::memcpy(val, read_ptr(), rc);\n\tif (rc != 3 || read_pos != 1)\n\t\tdid_read(rc);\n")]),
    ("C26", "bad", "c26-writeto-total", [(SX, "\t\tdid_read(count);\n\t\tmax_count -= count;\n\t\ttotal_count += count;\n", "\t\tdid_read(count);\n\t\tmax_count -= count;\n\t\ttotal_count += rc;\n")]),
    ("C26", "bad", "c26-writeto-max", [(SX, "\t\tdid_read(count);\n\t\tmax_count -= count;\n\t\ttotal_count += count;\n", "\t\tdid_read(count);\n\t\ttotal_count += count;\n")]),
    ("C26", "bad", "c26-didread-wrap", [(SH, "if (read_pos >= impl.size()) {", "if (read_pos > impl.size()) {")]),
    ("C26", "bad", "c26-didread-wpos", [(SH, "\t\t\tread_pos -= impl.size();\n\t\t\twrite_pos -= impl.size();", "\t\t\tread_pos -= impl.size();\n\t\t\twrite_pos = write_pos >= impl.size() * 2 - 1 ? 0 : write_pos - impl.size();")]),
    ("C26", "bad", "c26-wcount", [(SH, "write_pos < impl.size() ? impl.size() - write_pos : read_pos - (write_pos - impl.size()); }\n\tuint8_t", "write_pos <= impl.size() ? impl.size() - write_pos : read_pos - (write_pos - impl.size()); }\n\tuint8_t")]),
    ("C26", "bad", "c26-rcount2", [(SH, "size_t read_count2() const { return write_pos < impl.size() ? 0 : write_pos - impl.size(); }", "size_t read_count2() const { return write_pos <= impl.size() + 1 ? 0 : write_pos - impl.size(); }")]),
    ("C26", "bad", "c26-wcount2", [(SH, "size_t write_count2() const { return write_pos < impl.size() ? read_pos : 0; }", "size_t write_count2() const { return read_pos < write_pos ? read_pos : 0; }")]),
    ("C26", "bad", "c26-wptr", [(SH, "impl.data() + write_pos : impl.data() + write_pos - impl.size(); }", "impl.data() + write_pos : impl.data() + (read_pos - write_count()) - (read_pos == 3 ? 1 : 0); }")]),
    ("C26", "bad", "c26-peek2", [(SX, "\tstd::memcpy(val + rc, rp2, count - rc);\n", "\tstd::memcpy(val + rc, rp2 + (count - rc > read_count2() / 2), count - rc);\n")]),
    ("C26", "bad", "c26-peek1", [(SX, "\tif (rc >= count) {\n\t\tstd::memcpy(val, rp, count);", "\tif (rc >= count || read_count2() == 1) {\n\t\tstd::memcpy(val, rp, count);")]),
    ("C26", "bad", "c26-readfrom-stop", [(SX, "\t\tdid_write(count);\n\t\ttotal_count += count;\n\t\tif (count == 0)\n\t\t\tbreak;", "\t\tdid_write(count);\n\t\ttotal_count += count;\n\t\tif (count < wc)\n\t\t\tbreak;")]),
    ("C26", "bad", "c26-readfrom-total", [(SX, "\t\tdid_write(count);\n\t\ttotal_count += count;\n", "\t\tdid_write(count);\n\t\ttotal_count = count;\n")]),
    ("C26", "bad", "c26-enough", [(SX, "\tif (size() < count)\n\t\tread_from(in);\n\treturn size() >= count;", "\tif (size() < count)\n\t\treturn read_from(in) >= count;\n\treturn true;")]),
    ("C26", "bad", "c26-undo", [(SH, "invariant(write_pos >= read_pos + count, \"Writing undo past read_pos\");", "invariant(write_pos >= count, \"Writing undo past read_pos\");")]),
    ("C26", "bad", "c26-full", [(SH, "bool full() const { return read_pos + impl.size() == write_pos; }", "bool full() const { return write_pos != 0 && (write_pos % impl.size()) == read_pos; }")]),
    ("C26", "bad", "c26-clear-size", [(SH, "\t\tclear();\n\t\timpl.resize(new_size);", "\t\tif (new_size != impl.size())\n\t\t\tclear();\n\t\timpl.resize(new_size);")]),
    ("C26", "bad", "c26-mem-si", [(SX, "\t\tsize_t count = out.write_some(data, rc);\n\t\tdata += count;\n\t\tsi -= count;", "\t\tsize_t count = out.write_some(data, rc);\n\t\tdata += count;\n\t\tsi -= rc;")]),
    ("C26", "bad", "c26-mem-data", [(SX, "\tstd::memcpy(data, val, rc);\n\tdata += rc;\n\tsi -= rc;", "\tstd::memcpy(data, val, rc);\n\tif (rc != si)\n\t\tdata += rc;\n\tsi -= count;")]),
    ("C26", "bad", "c26-vec-insert", [(SX, "CRAB_INLINE size_t OVectorStream::write_some(const uint8_t *val, size_t count) {\n\twimpl->insert(wimpl->end(), val, val + count);", "CRAB_INLINE size_t OVectorStream::write_some(const uint8_t *val, size_t count) {\n\twimpl->insert(wimpl->begin(), val, val + count);")]),
    ("C26", "bad", "c26-vec-pos", [(SX, "size_t count = out.write_some(rimpl->data() + read_pos, rc);\n\t\tread_pos += count;\n\t\tmax_count -= count;\n\t\ttotal_count += count;\n\t\tif (count == 0)\n\t\t\tbreak;\n\t}\n\treturn total_count;\n}\n\nCRAB_INLINE size_t OVectorStream", "size_t count = out.write_some(rimpl->data() + read_pos, rc);\n\t\tread_pos += rc;\n\t\tmax_count -= count;\n\t\ttotal_count += count;\n\t\tif (count == 0)\n\t\t\tbreak;\n\t}\n\treturn total_count;\n}\n\nCRAB_INLINE size_t OVectorStream")]),
    ("C26", "bad", "c26-str-insert", [(SX, "CRAB_INLINE size_t OStringStream::write_some(const uint8_t *val, size_t count) {\n\twimpl->insert(wimpl->end(), val, val + count);", "CRAB_INLINE size_t OStringStream::write_some(const uint8_t *val, size_t count) {\n\twimpl->assign(reinterpret_cast<const char *>(val), count);")]),
    ("C26", "bad", "c26-read-val", [(SX, "\t\tval += rc;\n\t\tcount -= rc;\n\t}\n}\n\nCRAB_INLINE void OStream", "\t\tif (rc != count)\n\t\t\tval += 1;\n\t\tcount -= rc;\n\t}\n}\n\nCRAB_INLINE void OStream")]),
    ("C26", "bad", "c26-write-short", [(SX, "\t\tif (wc == 0)\n\t\t\tthrow std::runtime_error{\"crab::OStream writing to full stream\"};", "\t\tif (wc < count)\n\t\t\tthrow std::runtime_error{\"crab::OStream writing to full stream\"};")]),
    ("C26", "bad", "c26-comb-max", [(SH, "\t\t\tmax_count -= count;\n\t\t\tif (!a->empty())", "\t\t\tif (!a->empty())")]),
    ("C26", "bad", "c26-comb-order", [(SH, "\t\t\treturn a->read_some(val, count);\n\t\treturn b->read_some(val, count);", "\t\t\treturn b->empty() ? a->read_some(val, count) : b->read_some(val, count);\n\t\treturn b->read_some(val, count);")]),
    ("C26", "bad", "c26-comb-skip", [(SH, "\t\t\tif (!a->empty())\n\t\t\t\treturn count;\n\t\t\treturn count", "\t\t\tif (count == 0)\n\t\t\t\treturn count;\n\t\t\treturn count")]),
    ("C26", "bad", "c26-assign-rimpl", [(SH, "\tStringStream &operator=(StringStream &&other) noexcept {\n\t\timpl     = std::move(other.impl);\n\t\trimpl    = &impl;", "\tStringStream &operator=(StringStream &&other) noexcept {\n\t\timpl     = std::move(other.impl);\n\t\trimpl    = other.rimpl;")]),
    ("C26", "bad", "c26-move-pos", [(SH, "VectorStream(VectorStream &&other) noexcept : IVectorStream(&impl), OVectorStream(&impl), impl(std::move(other.impl)) {\n\t\tread_pos = other.read_pos;", "VectorStream(VectorStream &&other) noexcept : IVectorStream(&impl), OVectorStream(&impl), impl(std::move(other.impl)) {\n\t\tread_pos = 0;")]),
    ("C26", "bad", "c26-clear-pos", [(SH, "\t\tbdata result;\n\t\timpl.swap(result);\n\t\tread_pos = 0;", "\t\tbdata result;\n\t\timpl.swap(result);")]),
    ("C26", "ok", "c26-copy", [(SX, "\tstd::memcpy(val, read_ptr(), rc);\n\tdid_read(rc);\n", "\tconst uint8_t *from = read_ptr();\n\tstd::copy(from, from + rc, val);\n\tdid_read(rc);\n")]),
    ("C26", "ok", "c26-helper", [(SX, "CRAB_INLINE size_t IMemoryStream::write_to(OStream &out, size_t max_count) {\n\tsize_t total_count = 0;\n\twhile (true) {\n\t\tsize_t rc = std::min(size(), max_count);\n\t\tif (rc == 0)\n\t\t\tbreak;\n\t\tsize_t count = out.write_some(data, rc);\n\t\tdata += count;\n\t\tsi -= count;\n\t\tmax_count -= count;\n\t\ttotal_count += count;\n\t\tif (count == 0)\n\t\t\tbreak;\n\t}\n\treturn total_count;",
        "CRAB_INLINE size_t IMemoryStream::write_to(OStream &out, size_t max_count) {\n\tconst uint8_t *const start = data;\n\tsize_t left = max_count < si ? max_count : si;\n\tfor (; left != 0;) {\n\t\tconst size_t count = out.write_some(data, left);\n\t\tif (count == 0)\n\t\t\tbreak;\n\t\tleft -= count;\n\t\tsi -= count;\n\t\tdata += count;\n\t}\n\treturn data - start;")]),
    ("C26", "ok", "c26-readfrom", [(SX, "\tsize_t total_count = 0;\n\twhile (true) {\n\t\tsize_t wc = write_count();\n\t\tif (wc == 0)\n\t\t\tbreak;\n\t\tsize_t count = in.read_some(write_ptr(), wc);\n\t\tdid_write(count);\n\t\ttotal_count += count;\n\t\tif (count == 0)\n\t\t\tbreak;\n\t}\n\treturn total_count;",
        "\tconst size_t before = size();\n\tfor (size_t wc = write_count(); wc != 0; wc = write_count()) {\n\t\tsize_t count = in.read_some(write_ptr(), wc);\n\t\tif (count == 0)\n\t\t\tbreak;\n\t\tdid_write(count);\n\t}\n\treturn size() - before;")]),
    ("C26", "ok", "c26-didread", [(SH, "\t\tif (read_pos >= impl.size()) {  // could did read from 2 parts of circular buffer\n\t\t\tread_pos -= impl.size();\n\t\t\twrite_pos -= impl.size();\n\t\t}\n\t\tif (read_pos == write_pos)\n\t\t\tread_pos = write_pos = 0;", "\t\tif (read_pos == write_pos) {\n\t\t\tclear();\n\t\t\treturn;\n\t\t}\n\t\tconst size_t total = impl.size();\n\t\tif (total <= read_pos) {\n\t\t\twrite_pos = write_pos - total;\n\t\t\tread_pos = read_pos - total;\n\t\t}\n")]),
    ("C26", "ok", "c26-vec", [(SX, "CRAB_INLINE size_t OVectorStream::write_some(const uint8_t *val, size_t count) {\n\twimpl->insert(wimpl->end(), val, val + count);", "CRAB_INLINE size_t OVectorStream::write_some(const uint8_t *val, size_t count) {\n\tconst size_t was = wimpl->size();\n\twimpl->resize(was + count);\n\tif (count != 0)\n\t\tstd::memcpy(wimpl->data() + was, val, count);")]),
    ("C26", "ok", "c26-str", [(SX, "CRAB_INLINE size_t OStringStream::write_some(const uint8_t *val, size_t count) {\n\twimpl->insert(wimpl->end(), val, val + count);", "CRAB_INLINE size_t OStringStream::write_some(const uint8_t *val, size_t count) {\n\twimpl->append(reinterpret_cast<const char *>(val), count);")]),
    ("C26", "ok", "c26-comb", [(SH, "\t\tif (!a->empty()) {\n\t\t\tsize_t count = a->write_to(out, max_count);\n\t\t\tmax_count -= count;\n\t\t\tif (!a->empty())\n\t\t\t\treturn count;\n\t\t\treturn count + b->write_to(out, max_count);\n\t\t}\n\t\treturn b->write_to(out, max_count);", "\t\tsize_t count = 0;\n\t\tif (!a->empty())\n\t\t\tcount = a->write_to(out, max_count);\n\t\tif (!a->empty())\n\t\t\treturn count;\n\t\treturn count + b->write_to(out, max_count - count);")]),
]
SRVF = "http/server.hxx"
WSC = '''	if (who->ws_handler)
		call([who]() {
			who->ws_handler(WebMessage{WebMessageOpcode::CLOSE, {},
			    who->web_message_close_sent ? WebMessage::CLOSE_STATUS_NORMAL : WebMessage::CLOSE_STATUS_DISCONNECT});
		});
'''
M += [
    ("C32", "bad", "c32-limit", [(SRVF, "clients.size() < settings.max_connections", "clients.size() <= settings.max_connections")]),
    ("C32", "bad", "c32-nolimit", [(SRVF, " && clients.size() < settings.max_connections", " && (clients.size() < settings.max_connections || settings.max_connections == 0)")]),
    ("C32", "bad", "c32-noresume", [(SRVF, "\taccept_all();  // In case we were over limit\n", "")]),
    ("C32", "bad", "c32-resume-cond", [(SRVF, "\tclients.erase(it);\n\taccept_all();", "\tconst bool full = clients.size() > settings.max_connections;\n\tclients.erase(it);\n\tif (full)\n\t\taccept_all();")]),
    ("C32", "bad", "c32-acceptfirst", [(SRVF, "\tclients.erase(it);\n\taccept_all();  // In case we were over limit\n", "\taccept_all();  // In case we were over limit\n\tclients.erase(it);\n")]),
    ("C32", "bad", "c32-one", [(SRVF, "\twhile (acceptor.can_accept()", "\tif (acceptor.can_accept()")]),
    ("C32", "bad", "c32-erasefirst", [(SRVF, "\tif (who->d_handler)\n\t\tcall(who->d_handler);\n\tif (who->rwd", "\tif (who->d_handler && clients.size() == settings.max_connections) {\n\t\tHandler h = std::move(who->d_handler);\n\t\tclients.erase(it);\n\t\tcall(h);\n\t\treturn accept_all();\n\t}\n\tif (who->d_handler)\n\t\tcall(who->d_handler);\n\tif (who->rwd")]),
    ("C32", "bad", "c32-else", [(SRVF, "\tif (who->rwd_handler)\n\t\tcall(", "\telse if (who->rwd_handler)\n\t\tcall(")]),
    ("C32", "bad", "c32-noclose", [(SRVF, "\tif (who->ws_handler)\n\t\tcall(", "\tif (who->ws_handler && !who->web_message_close_sent)\n\t\tcall(")]),
    ("C32", "bad", "c32-code", [(SRVF, "who->web_message_close_sent ? WebMessage::CLOSE_STATUS_NORMAL : WebMessage::CLOSE_STATUS_DISCONNECT", "WebMessage::CLOSE_STATUS_DISCONNECT")]),
    ("C32", "bad", "c32-opcode", [(SRVF, "who->ws_handler(WebMessage{WebMessageOpcode::CLOSE, {},", "who->ws_handler(WebMessage{WebMessageOpcode::TEXT, {},")]),
    ("C32", "bad", "c32-wskept", [(SRVF, "\tif (opcode == WebMessageOpcode::CLOSE)\n\t\twho->ws_handler = nullptr;", "\tif (opcode == WebMessageOpcode::CLOSE && !who->web_message_close_sent)\n\t\twho->ws_handler = nullptr;")]),
    ("C32", "bad", "c32-moved-opcode", [(SRVF, "\tauto opcode = message.opcode;\n\ttry {\n\t\tif (who->ws_handler)\n\t\t\twho->ws_handler(std::move(message));", "\tauto opcode = WebMessageOpcode::TEXT;\n\ttry {\n\t\tif (who->ws_handler)\n\t\t\twho->ws_handler(std::move(message));\n\t\topcode = message.opcode;")]),
    ("C32", "bad", "c32-keepr", [(SRVF, "\tServerConnection::write_last_chunk(bo);\n\trwd_handler = nullptr;", "\tServerConnection::write_last_chunk(bo);")]),
    ("C32", "bad", "c32-keepr2", [(SRVF, "\tServerConnection::write(std::move(ss), buffer_options);\n\tbody_position += count;\n\tif (!is_writing_body()) {", "\tServerConnection::write(std::move(ss), buffer_options);\n\tbody_position += count;\n\tif (count && !get_total_buffer_size() && !is_writing_body()) {")]),
    ("C32", "bad", "c32-bindlate", [(SRVF, "\t\tit->set_handler([this, it]() { on_client_handler(it); });\n\t\tit->accept(acceptor);", "\t\tit->accept(acceptor);\n\t\tit->set_handler([this, it]() { on_client_handler(it); });")]),
    ("C32", "bad", "c32-front", [(SRVF, "\t\tauto it = --clients.end();", "\t\tauto it = clients.begin();")]),
    ("C32", "bad", "c32-sentstale", [(SRVF, "\tws_handler             = std::move(cb);\n\tweb_message_close_sent = false;", "\tws_handler             = std::move(cb);")]),
    ("C32", "bad", "c32-sentany", [(SRVF, "\tif (wm.is_close())\n\t\tweb_message_close_sent = true;", "\tweb_message_close_sent = wm.is_close() || wm.is_binary();")]),
    ("C32", "bad", "c32-upgraded", [(SRVF, "\tServerConnection::web_socket_upgrade();\n\td_handler              = nullptr;", "\tServerConnection::web_socket_upgrade();")]),
    ("C32", "bad", "c32-streamd", [(SRVF, "\tServerConnection::write(response);\n\td_handler     = nullptr;", "\tServerConnection::write(response);")]),
    ("C32", "bad", "c32-throwkeeps", [(SRVF, "\t\ttry {\n\t\t\thandler();\n\t\t} catch (const std::exception &ex) {\n\t\t\tstd::cout << \"HTTP disconnect handler leads to throw/catch, what=\" << ex.what() << std::endl;\n\t\t}", "\t\thandler();")]),
    ("C32", "bad", "c32-touch", [(SRVF, "\tclients.erase(it);\n\taccept_all();", "\tclients.erase(it);\n\tif (who->ws_handler)\n\t\twho->ws_handler = nullptr;\n\taccept_all();")]),
    ("C32", "bad", "c32-notopen", [(SRVF, "\tif (!who->is_open())\n\t\treturn on_client_disconnected(it);\n", "\tif (!who->is_open() && !who->rwd_handler)\n\t\treturn on_client_disconnected(it);\n")]),
    ("C33", "bad", "c33-runtime", [(SRVF, "\t} catch (const std::exception &ex) {\n\t\tif (who->get_state()", "\t} catch (const std::runtime_error &ex) {\n\t\tif (who->get_state()")]),
    ("C33", "bad", "c33-wsruntime", [(SRVF, "\t} catch (const std::exception &ex) {\n\t\tstd::cout << \"HTTP socket request", "\t} catch (const std::runtime_error &ex) {\n\t\tstd::cout << \"HTTP socket request")]),
    ("C33", "bad", "c33-nochallenge", [(SRVF, '\t\t\tresponse.header.headers.push_back({"WWW-Authenticate", "Basic realm=\\"" + ex.realm + "\\", charset=\\"UTF-8\\""});\n', '\t\t\tif (!ex.realm.empty())\n\t\t\t\tresponse.header.headers.push_back({"WWW-Authenticate", "Basic realm=\\"" + ex.realm + "\\", charset=\\"UTF-8\\""});\n')]),
    ("C33", "bad", "c33-403", [(SRVF, "response.header.status = 401;", "response.header.status = ex.realm.empty() ? 403 : 401;")]),
    ("C33", "bad", "c33-500", [(SRVF, "Response::simple_text(422, ex.what())", "Response::simple_text(500, ex.what())")]),
    ("C33", "bad", "c33-late", [(SRVF, "\t\tif (who->get_state() == ServerConnection::RESPONSE_HEADER) {\n\t\t\t// TODO", "\t\tif (who->get_state() >= ServerConnection::RESPONSE_HEADER) {\n\t\t\t// TODO")]),
    ("C33", "bad", "c33-postponed", [(SRVF, "\t\tif (who->get_state() == ServerConnection::RESPONSE_HEADER) {\n\t\t\t// TODO", "\t\tif (who->get_state() == ServerConnection::RESPONSE_HEADER && !who->d_handler) {\n\t\t\t// TODO")]),
    ("C33", "bad", "c33-nows", [(SRVF, "\t\twho->write(WebMessage{WebMessageOpcode::CLOSE, ex.what(), WebMessage::CLOSE_STATUS_ERROR});\n", "")]),
    ("C33", "bad", "c33-wscode", [(SRVF, "WebMessage{WebMessageOpcode::CLOSE, ex.what(), WebMessage::CLOSE_STATUS_ERROR}", "WebMessage{WebMessageOpcode::CLOSE, ex.what(), WebMessage::CLOSE_STATUS_NORMAL}")]),
    ("C33", "bad", "c33-wssent", [(SRVF, "\t\twho->write(WebMessage{WebMessageOpcode::CLOSE, ex.what(),", "\t\tif (opcode != WebMessageOpcode::CLOSE)\n\t\t\twho->write(WebMessage{WebMessageOpcode::CLOSE, ex.what(),")]),
    ("C33", "bad", "c33-stream", [(SRVF, "\t\ttry {\n\t\t\twho->rwd_handler();\n\t\t} catch (const std::exception &ex) {", "\t\ttry {\n\t\t\twho->rwd_handler();\n\t\t} catch (const std::runtime_error &ex) {")]),
    ("C33", "bad", "c33-once", [(SRVF, "\t\t\ton_client_handle_message(who, std::move(message));\n", "\t\t\treturn on_client_handle_message(who, std::move(message));\n")]),
    ("C33", "bad", "c33-once2", [(SRVF, "\t\t\ton_client_handle_request(who, std::move(request));\n", "\t\t\treturn on_client_handle_request(who, std::move(request));\n")]),
    ("C33", "bad", "c33-streamret", [(SRVF, "\t\t\treturn on_client_disconnected(it);\n\t\t}\n\t}\n\twhile", "\t\t\treturn on_client_disconnected(it);\n\t\t}\n\t\tif (!who->rwd_handler)\n\t\t\treturn;\n\t}\n\twhile")]),
    ("C33", "bad", "c33-authrun", [(SRVF, "\t\tif (who->get_state() == ServerConnection::RESPONSE_HEADER) {\n\t\t\tResponse response;", "\t\tif (who->get_state() != ServerConnection::RESPONSE_BODY) {\n\t\t\tResponse response;")]),
    ("C32 C33", "ok", "c32-prev", [(SRVF, "\t\tauto it = --clients.end();", "\t\tauto it = std::prev(clients.end());")]),
    ("C32 C33", "ok", "c32-emplace", [(SRVF, "\t\tclients.emplace_back();\n\t\tauto it = --clients.end();", "\t\tauto it = clients.emplace(clients.end());")]),
    ("C32 C33", "ok", "c32-order", [(SRVF, "\twhile (acceptor.can_accept() && clients.size() < settings.max_connections) {", "\tfor (;;) {\n\t\tif (clients.size() >= settings.max_connections)\n\t\t\tbreak;\n\t\tif (!acceptor.can_accept())\n\t\t\tbreak;")]),
    ("C32 C33", "ok", "c32-helper", [(SRVF, "CRAB_INLINE void Server::on_client_disconnected(std::list<Client>::iterator it) {\n\tClient *who = &*it;", "static void tell_closed(const Client::WS_handler &h, bool sent) {\n\tWebMessage m{WebMessageOpcode::CLOSE};\n\tm.close_code = WebMessage::CLOSE_STATUS_DISCONNECT;\n\tif (sent)\n\t\tm.close_code = WebMessage::CLOSE_STATUS_NORMAL;\n\th(std::move(m));\n}\n\nCRAB_INLINE void Server::on_client_disconnected(std::list<Client>::iterator it) {\n\tClient *who = &*it;"),
        (SRVF, WSC, "\tif (who->ws_handler)\n\t\tcall([who]() { tell_closed(who->ws_handler, who->web_message_close_sent); });\n")]),
    ("C32 C33", "ok", "c32-loop", [(SRVF, "\twhile (true) {\n\t\tif (who->read_next(message)) {\n\t\t\ton_client_handle_message(who, std::move(message));\n\t\t} else if (who->read_next(request)) {\n\t\t\ton_client_handle_request(who, std::move(request));\n\t\t} else\n\t\t\tbreak;\n\t}", "\tbool more = true;\n\twhile (more) {\n\t\tmore = false;\n\t\twhile (who->read_next(message)) {\n\t\t\ton_client_handle_message(who, std::move(message));\n\t\t\tmore = true;\n\t\t}\n\t\tif (who->read_next(request)) {\n\t\t\tmore = true;\n\t\t\ton_client_handle_request(who, std::move(request));\n\t\t}\n\t}")]),
    ("C32 C33", "ok", "c32-moveout", [(SRVF, "\tif (who->d_handler)\n\t\tcall(who->d_handler);\n", "\tif (who->d_handler) {\n\t\tHandler h = who->d_handler;\n\t\tcall(h);\n\t}\n")]),
    ("C33 C32", "ok", "c33-unauth", [(SRVF, "\t\tif (who->get_state() == ServerConnection::RESPONSE_HEADER) {\n\t\t\tResponse response;\n", "\t\tif (who->get_state() == ServerConnection::RESPONSE_HEADER) {\n\t\t\tResponse response{};\n\t\t\tstd::string challenge = \"Basic realm=\\\"\";\n\t\t\tchallenge += ex.realm;\n\t\t\tchallenge += \"\\\", charset=\\\"UTF-8\\\"\";\n"),
        (SRVF, '{"WWW-Authenticate", "Basic realm=\\"" + ex.realm + "\\", charset=\\"UTF-8\\""}', '{"WWW-Authenticate", challenge}')]),
    ("C33 C32", "ok", "c33-nested", [(SRVF, "\t} catch (const ErrorAuthorization &ex) {\n\t\tif (who->get_state() == ServerConnection::RESPONSE_HEADER) {", "\t} catch (const ErrorAuthorization &ex) {\n\t\tconst auto phase = who->get_state();\n\t\tif (phase == ServerConnection::RESPONSE_HEADER) {")]),
]
IH, IL = "intrusive_heap.hpp", "intrusive_list.hpp"
M += [
    ("C31", "bad", "c31-lastchild", [(IH, "if (lc + 1 < size && Pred", "if (lc + 1 < size - 1 && Pred")]),
    ("C31", "bad", "c31-leaf", [(IH, "\t\t\tif (lc >= size)\n", "\t\t\tif (lc + 1 >= size)\n")]),
    ("C31", "bad", "c31-downonly", [(IH, "\t\tif (ind > 1 && !Pred{}(*at(ind), *at(ind / 2)))\n\t\t\tmove_up(ind);\n\t\telse\n\t\t\tmove_down(ind);", "\t\tmove_down(ind);")]),
    ("C31", "bad", "c31-adjust3", [(IH, "\t\tif (ind > 1 && !Pred", "\t\tif (ind > 7 && !Pred")]),
    ("C31", "bad", "c31-noindex", [(IH, "\t\t\tat(ind)                      = at(p);\n\t\t\t(at(ind)->*Index).heap_index = ind;\n", "\t\t\tat(ind)                      = at(p);\n\t\t\tif (p > 1)\n\t\t\t\t(at(ind)->*Index).heap_index = ind;\n")]),
    ("C31", "bad", "c31-noindex2", [(IH, "\t\tat(ind)                      = data;\n\t\t(at(ind)->*Index).heap_index = ind;\n\t}\n\tvoid move_up", "\t\tat(ind) = data;\n\t}\n\tvoid move_up")]),
    ("C31", "bad", "c31-kept", [(IH, "\t\t(at(1)->*Index).heap_index = 0;\n\t\tat(1) ", "\t\tif (storage.size() > 2)\n\t\t\t(at(1)->*Index).heap_index = 0;\n\t\tat(1) ")]),
    ("C31", "bad", "c31-twice", [(IH, "\t\tif ((node.*Index).heap_index != 0)\n\t\t\treturn false;\n", "\t\tif ((node.*Index).heap_index > 1)\n\t\t\treturn false;\n")]),
    ("C31", "bad", "c31-eraselast", [(IH, "\t\tif (ind < storage.size())\n\t\t\tadjust(ind);", "\t\tif (ind + 1 < storage.size())\n\t\t\tadjust(ind);")]),
    ("C31", "bad", "c31-popsize", [(IH, "\t\tif (1 < storage.size())\n\t\t\tmove_down(1);", "\t\tmove_down(1);")]),
    ("C31", "bad", "c31-wrongcmp", [(IH, "if (Pred{}(*at(lc), *data))", "if (!Pred{}(*data, *at(lc)) || ind > 4)")]),
    ("C31", "bad", "c31-unlink", [(IL, "\t\tnext->prev = prev;\n\t\tprev->next = next;\n", "\t\tprev->next = next;\n\t\tif (next != prev)\n\t\t\tnext->prev = prev;\n")]),
    ("C31", "bad", "c31-stale", [(IL, "\t\tnext = prev = nullptr;", "\t\tprev = nullptr;")]),
    ("C31", "bad", "c31-nodtor", [(IL, "\t~IntrusiveNode() { unlink(); }", "\t~IntrusiveNode() {\n\t\tif (next != prev)\n\t\t\tunlink();\n\t}")]),
    ("C31", "bad", "c31-again", [(IL, "\t\tif (other->in_list())\n\t\t\treturn;\n", "\t\tif (other->in_list())\n\t\t\tother->unlink();\n")]),
    ("C31", "bad", "c31-copy", [(IL, "class IntrusiveNode : public Nocopy {\npublic:\n", "class IntrusiveNode {\npublic:\n\tIntrusiveNode() = default;\n\tIntrusiveNode(const IntrusiveNode &) {}\n")]),
    ("C31", "bad", "c31-order", [(IL, "\t\tother->next             = pos.current->next;\n\t\tother->prev             = pos.current;\n\t\tpos.current->next->prev = other;\n\t\tpos.current->next       = other;", "\t\tpos.current->next       = other;\n\t\tother->next             = pos.current->next;\n\t\tother->prev             = pos.current;\n\t\tpos.current->next->prev = other;")]),
    ("C31", "bad", "c31-unlink2", [(IL, "\t\tif (!prev)\n\t\t\treturn;\n\t\tnext->prev", "\t\tif (!prev || next == prev)\n\t\t\treturn;\n\t\tnext->prev")]),
    ("C31", "ok", "c31-swap", [(IH, "\t\tT *data = at(ind);\n\n\t\twhile (true) {\n\t\t\tsize_t p = ind / 2;\n\n\t\t\tif (p == 0 || Pred{}(*data, *at(p)))\n\t\t\t\tbreak;\n\n\t\t\tat(ind)                      = at(p);\n\t\t\t(at(ind)->*Index).heap_index = ind;\n\t\t\tind                          = p;\n\t\t}\n\n\t\tat(ind)                      = data;\n\t\t(at(ind)->*Index).heap_index = ind;\n",
        "\t\t(at(ind)->*Index).heap_index = ind;\n\t\tfor (size_t p = ind >> 1; p != 0 && Pred{}(*at(p), *at(ind)); ind = p, p = ind >> 1) {\n\t\t\tstd::swap(at(ind), at(p));\n\t\t\t(at(ind)->*Index).heap_index = ind;\n\t\t\t(at(p)->*Index).heap_index   = p;\n\t\t}\n")]),
    ("C31", "ok", "c31-both", [(IH, "\t\tif (ind > 1 && !Pred{}(*at(ind), *at(ind / 2)))\n\t\t\tmove_up(ind);\n\t\telse\n\t\t\tmove_down(ind);", "\t\tT *x = at(ind);\n\t\tmove_up(ind);\n\t\tmove_down((x->*Index).heap_index);")]),
    ("C31", "ok", "c31-popfront", [(IH, "\t\t(at(1)->*Index).heap_index = 0;\n\t\tat(1)                      = storage.back();\n\t\tstorage.pop_back();\n\t\tif (1 < storage.size())\n\t\t\tmove_down(1);", "\t\tT *first = at(1);\n\t\tT *last  = storage.back();\n\t\tstorage.pop_back();\n\t\t(first->*Index).heap_index = 0;\n\t\tif (first == last)\n\t\t\treturn;\n\t\tat(1) = last;\n\t\tmove_down(1);")]),
    ("C31", "ok", "c31-unlinkorder", [(IL, "\t\tnext->prev = prev;\n\t\tprev->next = next;\n\t\tnext = prev = nullptr;", "\t\tIntrusiveNode<T> *n = next, *p = prev;\n\t\tprev = nullptr;\n\t\tnext = nullptr;\n\t\tif (n == this)\n\t\t\treturn;\n\t\tp->next = n;\n\t\tn->prev = p;")]),
    ("C31", "ok", "c31-pushback", [(IL, "void push_back(T &node) { insert(end(), node); }", "void push_back(T &node) {\n\t\tIntrusiveNode<T> &n = node.*Link;\n\t\tif (n.prev)\n\t\t\treturn;\n\t\tn.next             = &content;\n\t\tn.prev             = content.prev;\n\t\tcontent.prev->next = &n;\n\t\tcontent.prev       = &n;\n\t}")]),
]
CONN = "http/connection.hxx"
_CLOSEC = "\tstate = RESOLVING_HOST;\n\tread_buffer.clear();\n\tdns.cancel();\n\twaiting_request.reset();\n\tweb_message.reset();\n\tsock.close();\n\tpeer_address = Address();\n\tprotocol.clear();\n\thost.clear();\n\tport = 0;\n"
_CLOSES = "\tread_buffer.clear();\n\twm_ping_timer.cancel();\n\tnext_request_timer.cancel();\n\tweb_message.reset();\n\tsock.close();\n\tstate                    = REQUEST_HEADER;\n\twriting_web_message_body = false;\n"
def _less(t, x):
    assert x in t
    return t.replace(x, "")
M += [
    ("C23", "bad", "c23-crb", [(CONN, _CLOSEC, _less(_CLOSEC, "\tread_buffer.clear();\n"))]),
    ("C23", "bad", "c23-cdns", [(CONN, _CLOSEC, _less(_CLOSEC, "\tdns.cancel();\n"))]),
    ("C23", "bad", "c23-cwait", [(CONN, _CLOSEC, _less(_CLOSEC, "\twaiting_request.reset();\n"))]),
    ("C23", "bad", "c23-cwm", [(CONN, _CLOSEC, _less(_CLOSEC, "\tweb_message.reset();\n"))]),
    ("C23", "bad", "c23-csock", [(CONN, _CLOSEC, _less(_CLOSEC, "\tsock.close();\n"))]),
    ("C23", "bad", "c23-chost", [(CONN, _CLOSEC, _less(_CLOSEC, "\thost.clear();\n"))]),
    ("C23", "bad", "c23-cproto", [(CONN, _CLOSEC, _less(_CLOSEC, "\tprotocol.clear();\n"))]),
    ("C23", "bad", "c23-cport", [(CONN, _CLOSEC, _less(_CLOSEC, "\tport = 0;\n"))]),
    ("C23", "bad", "c23-cstate", [(CONN, _CLOSEC, _less(_CLOSEC, "\tstate = RESOLVING_HOST;\n"))]),
    ("C23", "bad", "c23-srb", [(CONN, _CLOSES, _less(_CLOSES, "\tread_buffer.clear();\n"))]),
    ("C23", "bad", "c23-sping", [(CONN, _CLOSES, _less(_CLOSES, "\twm_ping_timer.cancel();\n"))]),
    ("C23", "bad", "c23-snext", [(CONN, _CLOSES, _less(_CLOSES, "\tnext_request_timer.cancel();\n"))]),
    ("C23", "bad", "c23-swm", [(CONN, _CLOSES, _less(_CLOSES, "\tweb_message.reset();\n"))]),
    ("C23", "bad", "c23-swriting", [(CONN, _CLOSES, _less(_CLOSES, "\twriting_web_message_body = false;\n"))]),
    ("C23", "bad", "c23-rb-if-open", [(CONN, _CLOSES, _CLOSES.replace("\tread_buffer.clear();\n", "\tif (writing_web_message_body)\n\t\tread_buffer.clear();\n"))]),
    ("C23", "bad", "c23-reqparser", [(CONN, "\trequest_parser = RequestParser{};\n\tstate          = REQUEST_HEADER;\n}\n\nCRAB_INLINE void ServerConnection::close", "\tstate = REQUEST_HEADER;\n}\n\nCRAB_INLINE void ServerConnection::close")]),
    ("C23", "bad", "c23-respparser", [(CONN, "\tresponse_parser = ResponseParser{};\n\tif (req.header.is_websocket_upgrade()) {", "\tif (req.header.is_websocket_upgrade()) {")]),
    ("C23", "bad", "c23-wskey", [(CONN, "\t\tsec_websocket_key = req.header.sec_websocket_key;\n", "\t\tif (sec_websocket_key.empty())\n\t\t\tsec_websocket_key = req.header.sec_websocket_key;\n")]),
    ("C23", "bad", "c23-wmhead", [(CONN, "\t\t\t\twm_header_parser = WebMessageHeaderParser{};\n\t\t\t\twm_body_parser   = WebMessageBodyParser{};\n\t\t\t\tstate            = WEB_MESSAGE_HEADER;\n", "\t\t\t\twm_body_parser   = WebMessageBodyParser{};\n\t\t\t\tstate            = WEB_MESSAGE_HEADER;\n")]),
    ("C23", "bad", "c23-swmhead", [(CONN, "\twm_header_parser = WebMessageHeaderParser{};\n\twm_body_parser   = WebMessageBodyParser{};\n\tstate            = WEB_MESSAGE_HEADER;\n\twm_ping_timer.once", "\twm_body_parser   = WebMessageBodyParser{};\n\tstate            = WEB_MESSAGE_HEADER;\n\twm_ping_timer.once")]),
    ("C23", "bad", "c23-noclose", [(CONN, "\tclose();\n\tif (!sock.connect(address))\n", "\tsock.close();\n\tif (!sock.connect(address))\n")]),
    ("C23", "ok", "c23-order", [(CONN, _CLOSEC, "\tsock.close();\n\tdns.cancel();\n\tport = 0;\n\thost = std::string{};\n\tprotocol.resize(0);\n\tpeer_address = Address{};\n\tif (web_message)\n\t\tweb_message.reset();\n\tif (waiting_request)\n\t\twaiting_request.reset();\n\tread_buffer.clear();\n\tstate = RESOLVING_HOST;\n")]),
    ("C23", "ok", "c23-wmlate", [(CONN, "\twm_header_parser = WebMessageHeaderParser{};\n\twm_body_parser   = WebMessageBodyParser{};\n\tstate            = WEB_MESSAGE_HEADER;\n\twm_ping_timer.once", "\twm_header_parser = WebMessageHeaderParser{};\n\tstate            = WEB_MESSAGE_HEADER;\n\twm_ping_timer.once")]),
    ("C23", "ok", "c23-reqclose", [(CONN, _CLOSES, _CLOSES + "\trequest_parser = RequestParser{};\n"), (CONN, "\trequest_parser = RequestParser{};\n\tstate          = REQUEST_HEADER;\n}\n\nCRAB_INLINE void ServerConnection::close", "\tstate = REQUEST_HEADER;\n}\n\nCRAB_INLINE void ServerConnection::close")]),
]
_CLOSEB = "\tshutdown_timer.cancel();\n\tdata_to_write.clear();\n\ttotal_data_to_write  = 0;\n\twrite_shutdown_asked = false;\n\twrite_shutdown_sent  = false;\n"
M += [("C23", "bad", "c23-b%d" % k, [(CONN, _CLOSEB, _less(_CLOSEB, x + ";\n"))]) for k, x in enumerate(
    ("\tshutdown_timer.cancel()", "\tdata_to_write.clear()", "\ttotal_data_to_write  = 0", "\twrite_shutdown_asked = false", "\twrite_shutdown_sent  = false"))]
M += [("C23", "ok", "c23-bswap", [(CONN, _CLOSEB, "\twrite_shutdown_asked = write_shutdown_sent = false;\n\twhile (!data_to_write.empty())\n\t\tdata_to_write.pop_back();\n\ttotal_data_to_write = 0;\n\tshutdown_timer.cancel();\n")])]
M += [
    # --- C35
    ("C35", "bad", "c35-sha-pad55", [("crypto/sha1.hxx", "offset < 56 ? 56 - offset", "offset < 55 ? 56 - offset")]),
    ("C35", "bad", "c35-sha-len32", [("crypto/sha1.hxx", "static_cast<uint32_t>((original_size * 8) >> 32)", "0")]),
    ("C35", "bad", "c35-md5-len32", [("crypto/md5.hxx", "static_cast<uint32_t>((original_size * 8) >> 32)", "static_cast<uint32_t>(static_cast<uint32_t>(original_size * 8) >> 29 >> 3)")]),
    ("C35", "bad", "c35-sha-const", [("crypto/sha1.hxx", "c2 = 0x8f1bbcdc", "c2 = 0x8f1bbcdd")]),
    ("C35", "bad", "c35-sha-ch", [("crypto/sha1.hxx", "z += (((u | x) & y) | (u & x))", "z += (((u & x) & y) | (u & x))")]),
    ("C35", "bad", "c35-md5-g", [("crypto/md5.hxx", "(((x) & (z)) | ((y) & (~z)))", "(((x) & (z)) | ((y) | (~z)))")]),
    ("C35", "bad", "c35-md5-order", [("crypto/md5.hxx", "HH(b, c, d, a, x[2], S34, 0xc4ac5665)", "HH(b, c, d, a, x[3], S34, 0xc4ac5665)")]),
    ("C35", "bad", "c35-sha-tail", [("crypto/sha1.hxx", "while (n >= 64) {", "while (n > 64) {")]),
    ("C35", "bad", "c35-md5-int", [("crypto/md5.hxx", "while (n >= 64) {", "while (int(n) >= 64) {")]),
    ("C35", "bad", "c35-sha-size-int", [("crypto/sha1.hxx", "size += n;", "size = static_cast<uint32_t>(size + n);")]),
    ("C35", "bad", "c35-sha-out", [("crypto/sha1.hxx", "for (size_t i = 0; i != 5; ++i)\n\t\tdetails::sha1_put_word(result", "for (size_t i = 0; i != 4; ++i)\n\t\tdetails::sha1_put_word(result")]),
    ("C35", "bad", "c35-crc-table", [("crypto/crc32.hxx", "0x990951BAU", "0x990951BBU")]),
    ("C35", "bad", "c35-crc-int", [("crypto/crc32.hxx", "for (size_t i = 0; i != size; ++i) {\n\t\tcrc = crc_table[(crc ^ data[i]) & 0xFFU] ^ (crc >> 8U);\n\t}\n\treturn crc ^ 0xFFFFFFFFU;\n}\n\n#if", "for (uint32_t i = 0; i != uint32_t(size); ++i) {\n\t\tcrc = crc_table[(crc ^ data[i]) & 0xFFU] ^ (crc >> 8U);\n\t}\n\treturn crc ^ 0xFFFFFFFFU;\n}\n\n#if")]),
    ("C35", "bad", "c35-pcg-rot", [("util.hxx", "uint32_t(oldstate >> 59u)", "uint32_t(oldstate >> 60u)")]),
    ("C35", "bad", "c35-pcg-shift", [("util.hxx", "(oldstate >> 18u) ^ oldstate) >> 27u", "(oldstate >> 18u) ^ oldstate) >> 28u")]),
    ("C35", "bad", "c35-pcg-mask", [("util.hxx", "((32 - rot) & 31)", "((32 - rot) & 15)")]),
    ("C35", "bad", "c35-rnd-tail", [("util.hxx", "if (i == size)\n\t\treturn;\n\tauto value", "if (i == size && size)\n\t\treturn;\n\tauto value")]),
    ("C35", "bad", "c35-rnd-tail2", [("util.hxx", "value >>= 8U;", "value >>= 4U;")]),
    ("C35", "bad", "c35-rnd-seed", [("util.hxx", "inc((seed << 1U) | 1U)", "inc(seed | 1U)")]),
    ("C35", "ok", "c35-sha-loop", [("crypto/sha1.hxx", "while (n >= 64) {\n\t\tprocess_block(data);\n\t\tdata += 64;\n\t\tn -= 64;\n\t}", "for (; n > 63; n -= 64, data += 64)\n\t\tprocess_block(data);")]),
    ("C35", "ok", "c35-md5-rounds", [("crypto/md5.hxx", "(((x) & (y)) | ((~x) & (z)))", "((z) ^ ((x) & ((y) ^ (z))))"), ("crypto/md5.hxx", "((y) ^ ((x) | (~z)))", "((y) ^ ~((z) & ~(x)))")]),
    ("C35", "ok", "c35-sha-maj", [("crypto/sha1.hxx", "z += (((u | x) & y) | (u & x)) + w[i & 15] + c2 + details::sha1_rol32(v, 5);", "z = w[i & 15] + ((u & x) ^ (u & y) ^ (x & y)) + details::sha1_rol32(v, 5) + z + c2;")]),
    ("C35", "ok", "c35-sha-word", [("crypto/sha1.hxx", "((uint32_t)p[0] << 3 * 8) | ((uint32_t)p[1] << 2 * 8)", "(uint32_t)p[0] * 16777216u + ((uint32_t)p[1] << 2 * 8)")]),
    ("C35", "ok", "c35-md5-pad", [("crypto/md5.hxx", "offset < 56 ? 56 - offset : (56 + 64) - offset", "((55 - offset) & 63) + 1")]),
    ("C35", "ok", "c35-sha-rename", [("crypto/sha1.hxx", a, b) for a, b in (("process_block(buffer);\n\tindex", "compress_one(buffer);\n\tindex"), ("process_block(data)", "compress_one(data)"),
        ("process_block(buffer);\n\n\tfor", "compress_one(buffer);\n\n\tfor"), ("::process_block", "::compress_one"))] + [("crypto/sha1.hpp", "process_block", "compress_one")]),
    ("C35", "ok", "c35-crc-while", [("crypto/crc32.hxx", "for (size_t i = 0; i != size; ++i) {\n\t\tcrc = crc_table[(crc ^ data[i]) & 0xFFU] ^ (crc >> 8U);\n\t}\n\treturn crc ^ 0xFFFFFFFFU;\n}\n\n#if", "const uint8_t *end = data + size;\n\twhile (data != end) {\n\t\tconst uint8_t low = static_cast<uint8_t>(crc) ^ *data++;\n\t\tcrc = (crc >> 8U) ^ crc_table[low];\n\t}\n\treturn ~crc;\n}\n\n#if")]),
    ("C35", "ok", "c35-pcg-rot2", [("util.hxx", "return (xorshifted >> rot) | (xorshifted << ((32 - rot) & 31));", "return (xorshifted >> rot) | (xorshifted << ((~rot + 1) & 31));")]),
    ("C35", "ok", "c35-rnd-bytes", [("util.hxx", "std::memcpy(buffer + i, &value, sizeof(uint32_t));", "for (size_t k = 0; k != 4; ++k)\n\t\t\tbuffer[i + k] = static_cast<uint8_t>(value >> (8 * k));")]),
]
