From 16ffb01e9d39af07a29d43090726bdf6f3313e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:58 +0000
Subject: [PATCH 01/29] fix: Watcher::call must not touch the watcher after it
 was queued

Handler can run in the loop's thread immediately and destroy the watcher.
---
 include/crab/network.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/crab/network.hxx b/include/crab/network.hxx
index 8047475..349b924 100644
--- a/include/crab/network.hxx
+++ b/include/crab/network.hxx
@@ -278,8 +278,10 @@ CRAB_INLINE Watcher::Watcher(Handler &&a_handler) : loop(RunLoop::current()), a_
 CRAB_INLINE Watcher::~Watcher() { cancel(); }
 
 CRAB_INLINE void Watcher::call() {
-	loop->links.call_watcher(this);
-	loop->wakeup();
+	// As soon as this is in the queue, handler can run in the loop's thread and destroy this
+	RunLoop *const my_loop = loop;
+	my_loop->links.call_watcher(this);
+	my_loop->wakeup();
 }
 
 CRAB_INLINE void Watcher::cancel() {
-- 
2.43.0


From a4fb9959bd539b28f874bd732b7012f8c16ab19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:58 +0000
Subject: [PATCH 02/29] fix: DNSResolver handler must not be given names the
 worker thread can write to

If handler called resolve(), worker thread could change names while handler was still reading them.
---
 include/crab/network.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crab/network.hxx b/include/crab/network.hxx
index 349b924..d9be408 100644
--- a/include/crab/network.hxx
+++ b/include/crab/network.hxx
@@ -366,7 +366,9 @@ CRAB_INLINE DNSResolver::DNSResolver(DNS_handler &&handler)
 
 CRAB_INLINE void DNSResolver::on_handler() {
 	resolving = false;
-	dns_handler(names);
+	// Handler can call resolve(), then worker writes names while handler is still reading its argument
+	const std::vector<Address> result = std::move(names);
+	dns_handler(result);
 }
 
 CRAB_INLINE void DNSResolver::resolve(const std::string &host_name, uint16_t port, bool ipv4, bool ipv6) {
-- 
2.43.0


From f0940d22af5db7fcb6531e200ad0fab552fa4531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 03/29] fix: IMemoryStream::write_to must consume only the
 bytes the output took

---
 include/crab/streams.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/streams.hxx b/include/crab/streams.hxx
index 8dc83ae..8929942 100644
--- a/include/crab/streams.hxx
+++ b/include/crab/streams.hxx
@@ -202,7 +202,7 @@ CRAB_INLINE size_t IMemoryStream::write_to(OStream &out, size_t max_count) {
 			break;
 		size_t count = out.write_some(data, rc);
 		data += count;
-		si -= rc;
+		si -= count;
 		max_count -= count;
 		total_count += count;
 		if (count == 0)
-- 
2.43.0


From 96c8c74b21738c9edda7b5d4d640ea48ae0748c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 04/29] fix: CombinedIStream::write_to must count bytes of the
 first stream

---
 include/crab/streams.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crab/streams.hpp b/include/crab/streams.hpp
index 1c35ca8..ca7205a 100644
--- a/include/crab/streams.hpp
+++ b/include/crab/streams.hpp
@@ -300,6 +300,7 @@ public:
 			max_count -= count;
 			if (!a->empty())
 				return count;
+			return count + b->write_to(out, max_count);
 		}
 		return b->write_to(out, max_count);
 	}
-- 
2.43.0


From 3ccdbbd6f92310e7033caea037a9978fdd9697a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 05/29] fix: QueryParser must treat the character after a
 malformed percent escape as usual

---
 include/crab/http/query_parser.hxx | 40 +++++++++---------------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/include/crab/http/query_parser.hxx b/include/crab/http/query_parser.hxx
index 0500109..66c76d8 100644
--- a/include/crab/http/query_parser.hxx
+++ b/include/crab/http/query_parser.hxx
@@ -87,32 +87,24 @@ CRAB_INLINE QueryParser::State QueryParser::consume(char input) {
 			key_.push_back(input);
 		return KEY;
 	case KEY_PERCENT1: {
-		if (input == '=') {
-			key_.push_back('%');
-			return VALUE;
-		}
 		int digit1 = from_hex_digit(input);
 		if (digit1 < 0) {
 			key_.push_back('%');
-			key_.push_back(input);
-			return KEY;
+			state = KEY;
+			return consume(input);
 		}
 		percent1_hex_sym = input;
 		return KEY_PERCENT2;
 	}
 	case KEY_PERCENT2: {
-		if (input == '=') {
-			key_.push_back('%');
-			key_.push_back(percent1_hex_sym);
-			return VALUE;
-		}
 		int digit2 = from_hex_digit(input);
 		if (digit2 < 0) {
 			key_.push_back('%');
 			key_.push_back(percent1_hex_sym);
-			key_.push_back(input);
-		} else
-			key_.push_back(static_cast<char>(from_hex_digit(percent1_hex_sym) * 16 + digit2));
+			state = KEY;
+			return consume(input);
+		}
+		key_.push_back(static_cast<char>(from_hex_digit(percent1_hex_sym) * 16 + digit2));
 		return KEY;
 	}
 	case VALUE:
@@ -128,32 +120,24 @@ CRAB_INLINE QueryParser::State QueryParser::consume(char input) {
 			value_.push_back(input);
 		return VALUE;
 	case VALUE_PERCENT1: {
-		if (input == '&') {
-			value_.push_back('%');
-			return KEY;
-		}
 		int digit1 = from_hex_digit(input);
 		if (digit1 < 0) {
 			value_.push_back('%');
-			value_.push_back(input);
-			return VALUE;
+			state = VALUE;
+			return consume(input);
 		}
 		percent1_hex_sym = input;
 		return VALUE_PERCENT2;
 	}
 	case VALUE_PERCENT2: {
-		if (input == '=') {
-			value_.push_back('%');
-			value_.push_back(percent1_hex_sym);
-			return VALUE;
-		}
 		int digit2 = from_hex_digit(input);
 		if (digit2 < 0) {
 			value_.push_back('%');
 			value_.push_back(percent1_hex_sym);
-			value_.push_back(input);
-		} else
-			value_.push_back(static_cast<char>(from_hex_digit(percent1_hex_sym) * 16 + digit2));
+			state = VALUE;
+			return consume(input);
+		}
+		value_.push_back(static_cast<char>(from_hex_digit(percent1_hex_sym) * 16 + digit2));
 		return VALUE;
 	}
 	default:
-- 
2.43.0


From f489d5127d88122a7da50b0326bc44421a12a074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 06/29] fix: URIParser must treat the character after a
 malformed percent escape as usual

---
 include/crab/http/query_parser.hxx | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/include/crab/http/query_parser.hxx b/include/crab/http/query_parser.hxx
index 66c76d8..3c1db13 100644
--- a/include/crab/http/query_parser.hxx
+++ b/include/crab/http/query_parser.hxx
@@ -290,32 +290,24 @@ CRAB_INLINE URIParser::State URIParser::consume(char input) {
 			cur_path_.push_back(input);
 		return PATH;
 	case PATH_HEX1: {
-		if (input == '?') {
-			cur_path_.push_back('%');
-			return QUERY;
-		}
 		int digit1 = from_hex_digit(input);
 		if (digit1 < 0) {
 			cur_path_.push_back('%');
-			cur_path_.push_back(input);
-			return PATH;
+			state = PATH;
+			return consume(input);
 		}
 		percent1_hex_sym = input;
 		return PATH_HEX2;
 	}
 	case PATH_HEX2: {
-		if (input == '?') {
-			cur_path_.push_back('%');
-			cur_path_.push_back(percent1_hex_sym);
-			return QUERY;
-		}
 		int digit2 = from_hex_digit(input);
 		if (digit2 < 0) {
 			cur_path_.push_back('%');
 			cur_path_.push_back(percent1_hex_sym);
-			cur_path_.push_back(input);
-		} else
-			cur_path_.push_back(static_cast<char>(static_cast<uint8_t>(from_hex_digit(percent1_hex_sym) * 16 + digit2)));
+			state = PATH;
+			return consume(input);
+		}
+		cur_path_.push_back(static_cast<char>(static_cast<uint8_t>(from_hex_digit(percent1_hex_sym) * 16 + digit2)));
 		return PATH;
 	}
 	case QUERY:
-- 
2.43.0


From 0ff98c79e0c92105d3c0dcde7ddacecf568f94b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 07/29] fix: WebSocket reader must accept continuation frames

---
 include/crab/http/web_message_parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crab/http/web_message_parser.hpp b/include/crab/http/web_message_parser.hpp
index 75cf882..2a8d295 100644
--- a/include/crab/http/web_message_parser.hpp
+++ b/include/crab/http/web_message_parser.hpp
@@ -46,6 +46,7 @@ public:
 
 	static bool is_opcode_supported(int opcode) {
 		switch (opcode) {
+		case 0:  // Continuation
 		case static_cast<int>(WebMessageOpcode::TEXT):
 		case static_cast<int>(WebMessageOpcode::BINARY):
 		case static_cast<int>(WebMessageOpcode::CLOSE):
-- 
2.43.0


From 4dd733cf34e79312a2f6bc4abd29ca334f953f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 08/29] fix: WebSocket reader must reject 64-bit length with
 the top bit set

---
 include/crab/http/web_message_parser.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/web_message_parser.hxx b/include/crab/http/web_message_parser.hxx
index 7e99614..b1ad74e 100644
--- a/include/crab/http/web_message_parser.hxx
+++ b/include/crab/http/web_message_parser.hxx
@@ -73,6 +73,8 @@ CRAB_INLINE WebMessageHeaderParser::State WebMessageHeaderParser::consume(uint8_
 		remaining_field_bytes -= 1;
 		if (remaining_field_bytes != 0)
 			return MESSAGE_LENGTH;
+		if (payload_len >> 63)
+			throw std::runtime_error{"Most significant bit of payload_len must be 0"};
 		if (masking_key) {
 			remaining_field_bytes = 4;
 			return MASKING_KEY;
-- 
2.43.0


From 03986f73b8959e019c20f007aac596b00ef3b265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 09/29] fix: Client::write must count the string's size before
 moving it away

---
 include/crab/http/server.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index f557ace..2480ebf 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -46,8 +46,9 @@ CRAB_INLINE void Client::write(const uint8_t *val, size_t count, BufferOptions b
 }
 
 CRAB_INLINE void Client::write(std::string &&ss, BufferOptions buffer_options) {
+	const size_t count = ss.size();
 	ServerConnection::write(std::move(ss), buffer_options);
-	body_position += ss.size();
+	body_position += count;
 	if (!is_writing_body()) {
 		rwd_handler = nullptr;
 	}
-- 
2.43.0


From 80a753374975ee829755ba5888fd80496b1ced07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 10/29] fix: RequestParser must skip an empty line ended by
 bare LF, not start a method

---
 include/crab/http/request_parser.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index 95b3fe8..fd7625e 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -31,7 +31,7 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 		if (input == '\r')
 			return METHOD_START_LF;
 		if (input == '\n')
-			return METHOD;
+			return METHOD_START;
 		if (!is_char(input) || is_ctl(input) || is_tspecial(input))
 			throw std::runtime_error{"Invalid character at method start"};
 		req.method.push_back(input);
-- 
2.43.0


From 14231a90f1711ac1c94b4a955094088d87bf5533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 11/29] fix: RequestParser must reject one-digit major versions
 above 1

---
 include/crab/http/request_parser.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index fd7625e..ce13061 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -126,6 +126,8 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 		if (!isdigit(input))
 			throw std::runtime_error{"Invalid http version major start, must be digit"};
 		req.http_version_major = input - '0';
+		if (req.http_version_major > 1)
+			throw std::runtime_error{"Unsupported http version"};
 		return HTTP_VERSION_MAJOR;
 	case HTTP_VERSION_MAJOR:
 		if (input == '.')
-- 
2.43.0


From 3807d0acf69c2b6f0c42e46c1920aa4da3f5aed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 12/29] fix: ResponseParser must reject one-digit major
 versions above 1

---
 include/crab/http/response_parser.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/response_parser.hxx b/include/crab/http/response_parser.hxx
index ca7559c..7057372 100644
--- a/include/crab/http/response_parser.hxx
+++ b/include/crab/http/response_parser.hxx
@@ -48,6 +48,8 @@ CRAB_INLINE ResponseParser::State ResponseParser::consume(char input) {
 		if (!isdigit(input))
 			throw std::runtime_error{"Invalid http version major start, must be digit"};
 		req.http_version_major = input - '0';
+		if (req.http_version_major > 1)
+			throw std::runtime_error{"Unsupported http version"};
 		return HTTP_VERSION_MAJOR;
 	case HTTP_VERSION_MAJOR:
 		if (input == '.')
-- 
2.43.0


From edea4f6bae748b711884266a85c94733c8901bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 13/29] fix: chunked must be the last transfer coding and
 applied once

---
 include/crab/http/request_parser.hxx  | 10 +++++-----
 include/crab/http/response_parser.hxx | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index ce13061..b2c6533 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -263,15 +263,15 @@ CRAB_INLINE void RequestParser::process_ready_header() {
 	}
 	if (header.name == string_view{"transfer-encoding"}) {
 		tolower(header.value);
+		if (header.value == string_view{"identity"}) {
+			return;  // like chunked, it is transparent to user
+		}
+		if (req.transfer_encoding_chunked)
+			throw std::runtime_error{"chunk encoding must be applied last"};
 		if (header.value == string_view{"chunked"}) {
-			if (!req.transfer_encodings.empty())
-				throw std::runtime_error{"chunk encoding must be applied last"};
 			req.transfer_encoding_chunked = true;
 			return;
 		}
-		if (header.value == string_view{"identity"}) {
-			return;  // like chunked, it is transparent to user
-		}
 		req.transfer_encodings.push_back(header.value);
 		return;
 	}
diff --git a/include/crab/http/response_parser.hxx b/include/crab/http/response_parser.hxx
index 7057372..ca09022 100644
--- a/include/crab/http/response_parser.hxx
+++ b/include/crab/http/response_parser.hxx
@@ -218,15 +218,15 @@ CRAB_INLINE void ResponseParser::process_ready_header() {
 	}
 	if (header.name == string_view{"transfer-encoding"}) {
 		tolower(header.value);
+		if (header.value == string_view{"identity"}) {
+			return;  // like chunked, it is transparent to user
+		}
+		if (req.transfer_encoding_chunked)
+			throw std::runtime_error{"chunk encoding must be applied last"};
 		if (header.value == string_view{"chunked"}) {
-			if (!req.transfer_encodings.empty())
-				throw std::runtime_error{"chunk encoding must be applied last"};
 			req.transfer_encoding_chunked = true;
 			return;
 		}
-		if (header.value == string_view{"identity"}) {
-			return;  // like chunked, it is transparent to user
-		}
 		req.transfer_encodings.push_back(header.value);
 		return;
 	}
-- 
2.43.0


From d3c9a34e45eb8ac47c7b813a9741651902e74ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 14/29] fix: content-length must not have a sign

---
 include/crab/http/request_parser.hxx  | 2 ++
 include/crab/http/response_parser.hxx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index b2c6533..3e7ed59 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -254,6 +254,8 @@ CRAB_INLINE void RequestParser::process_ready_header() {
 	if (header.name == string_view{"content-length"}) {
 		if (req.content_length)
 			throw std::runtime_error{"content length specified more than once"};
+		if (header.value.empty() || !isdigit(header.value[0]))
+			throw std::runtime_error{"Content length is not a number"};  // integer_cast allows spaces and '+'
 		try {
 			req.content_length = integer_cast<uint64_t>(header.value);
 		} catch (const std::exception &) {
diff --git a/include/crab/http/response_parser.hxx b/include/crab/http/response_parser.hxx
index ca09022..e146bf2 100644
--- a/include/crab/http/response_parser.hxx
+++ b/include/crab/http/response_parser.hxx
@@ -209,6 +209,8 @@ CRAB_INLINE void ResponseParser::process_ready_header() {
 	if (header.name == string_view{"content-length"}) {
 		if (req.content_length)
 			throw std::runtime_error{"content length specified more than once"};
+		if (header.value.empty() || !isdigit(header.value[0]))
+			throw std::runtime_error{"Content length is not a number"};  // integer_cast allows spaces and '+'
 		try {
 			req.content_length = integer_cast<uint64_t>(header.value);
 		} catch (const std::exception &) {
-- 
2.43.0


From 7e62f145c37387fd9431ad6bbf2a51b7c0552e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 15/29] fix: BodyParser must accept bare LF at the end of a
 trailer line, as everywhere else

---
 include/crab/http/request_parser.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index 3e7ed59..b3fc137 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -453,6 +453,8 @@ CRAB_INLINE BodyParser::State BodyParser::consume(uint8_t input) {
 		trailers_total_length += 1;
 		if (input == '\r')
 			return TRAILER_LF;
+		if (input == '\n')
+			return TRAILER_LINE_START;
 		return TRAILER;
 	case TRAILER_LF:
 		trailers_total_length += 1;
-- 
2.43.0


From 3bc010a48631d96eaa0119f21de02d5e0289e77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 16/29] fix: ResponseHeader::to_string must write the server
 header

---
 include/crab/http/types.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/types.hxx b/include/crab/http/types.hxx
index 2111b47..b2d6355 100644
--- a/include/crab/http/types.hxx
+++ b/include/crab/http/types.hxx
@@ -232,6 +232,8 @@ CRAB_INLINE std::string ResponseHeader::to_string() const {
 	   << (status_text.empty() ? status_to_string(status) : status_text) << "\r\n";
 	if (!date.empty())
 		ss << "date: " << date << "\r\n";
+	if (!server.empty())
+		ss << "server: " << server << "\r\n";
 	details::to_string_common(*this, ss);
 	if (!sec_websocket_accept.empty())
 		ss << "sec-websocket-accept: " << sec_websocket_accept << "\r\n";
-- 
2.43.0


From ccf31cb802d905afc520a4d9381927c1dc0b8483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 17/29] fix: RequestHeader::get_uri must return path without
 query, set_uri must clear old query

---
 include/crab/http/types.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/types.hxx b/include/crab/http/types.hxx
index b2d6355..66f3aa1 100644
--- a/include/crab/http/types.hxx
+++ b/include/crab/http/types.hxx
@@ -193,13 +193,14 @@ CRAB_INLINE void RequestHeader::set_uri(const std::string &uri) {
 	auto pos = uri.find('?');
 	if (pos == std::string::npos) {
 		path = uri;
+		query_string.clear();
 	} else {
 		path         = uri.substr(0, pos);
 		query_string = uri.substr(pos + 1);
 	}
 }
 
-CRAB_INLINE std::string RequestHeader::get_uri() const { return query_string.empty() ? query_string : path + "?" + query_string; }
+CRAB_INLINE std::string RequestHeader::get_uri() const { return query_string.empty() ? path : path + "?" + query_string; }
 
 CRAB_INLINE std::string RequestHeader::to_string() const {
 	std::stringstream ss;
-- 
2.43.0


From d5911ad26fd9764ed0c31aa49b3211f3e305ffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 18/29] fix: rol by 0 must not shift by the type's width

---
 include/crab/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crab/util.hpp b/include/crab/util.hpp
index eba7d1f..552e344 100644
--- a/include/crab/util.hpp
+++ b/include/crab/util.hpp
@@ -169,7 +169,7 @@ inline bool is_valid_utf8(const std::string &str) { return is_valid_utf8(uint8_c
 template<typename T>
 T rol(T mask, size_t shift) {
 	shift = shift & (sizeof(T) * 8 - 1);
-	return (mask << shift) | (mask >> (sizeof(T) * 8 - shift));
+	return (mask << shift) | (mask >> ((sizeof(T) * 8 - shift) & (sizeof(T) * 8 - 1)));
 }
 
 namespace details {
-- 
2.43.0


From 3895895482584748c9bc12a18c3d6fe301019df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 19/29] fix: HTTP connections must drop a half-built web
 message on close

---
 include/crab/http/connection.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index ca3b7e8..8da4784 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -171,6 +171,7 @@ CRAB_INLINE void ClientConnection::close() {
 	read_buffer.clear();
 	dns.cancel();
 	waiting_request.reset();
+	web_message.reset();
 	sock.close();
 	peer_address = Address();
 	protocol.clear();
@@ -438,6 +439,7 @@ CRAB_INLINE void ServerConnection::accept(TCPAcceptor &acceptor) {
 CRAB_INLINE void ServerConnection::close() {
 	read_buffer.clear();
 	wm_ping_timer.cancel();
+	web_message.reset();
 	sock.close();
 	state                    = REQUEST_HEADER;
 	writing_web_message_body = false;
-- 
2.43.0


From 0cec11bd387d507743121a6e17fac031775a2115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 20/29] fix: ErrorAuthorization must be answered with a framed
 response, and only if response is not started

---
 include/crab/http/server.hxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index 2480ebf..c36a939 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -165,10 +165,13 @@ CRAB_INLINE void Server::on_client_handle_request(Client *who, Request &&request
 		if (r_handler)
 			r_handler(who, std::move(request));
 	} catch (const ErrorAuthorization &ex) {
-		Response response;
-		response.header.headers.push_back({"WWW-Authenticate", "Basic realm=\"" + ex.realm + "\", charset=\"UTF-8\""});
-		response.header.status = 401;
-		who->write(std::move(response));
+		if (who->get_state() == ServerConnection::RESPONSE_HEADER) {
+			Response response;
+			response.header.headers.push_back({"WWW-Authenticate", "Basic realm=\"" + ex.realm + "\", charset=\"UTF-8\""});
+			response.header.status = 401;
+			response.set_body(std::string{});
+			who->write(std::move(response));
+		}
 		return;
 	} catch (const std::exception &ex) {
 		if (who->get_state() == ServerConnection::RESPONSE_HEADER) {
-- 
2.43.0


From 274fd20a9c902eed312a28f41386f8bba94d7987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 21/29] fix: chunked response must not be framed by
 content-length at the same time

---
 include/crab/http/connection.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index 8da4784..a33b79b 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -521,6 +521,8 @@ CRAB_INLINE void ServerConnection::write(ResponseHeader &resp, BufferOptions bo)
 	resp.http_version_minor = request_parser.req.http_version_minor;
 	resp.keep_alive         = request_parser.req.keep_alive;
 
+	if (resp.transfer_encoding_chunked)
+		resp.content_length.reset();  // Chunked encoding overrides it
 	remaining_body_content_length = resp.content_length;
 	sock.write(resp.to_string(), bo);
 	state = RESPONSE_BODY;
-- 
2.43.0


From 57e89bf16a33cd75a066c700822d241f87559dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:20 +0000
Subject: [PATCH 22/29] fix: BufferedTCPSocket must drop state of the previous
 connection on connect and accept

---
 include/crab/http/connection.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/crab/http/connection.hpp b/include/crab/http/connection.hpp
index ce6bf99..c513166 100644
--- a/include/crab/http/connection.hpp
+++ b/include/crab/http/connection.hpp
@@ -24,9 +24,18 @@ public:
 	void close(bool with_event = false);
 	bool is_open() const { return sock.is_open(); }
 
-	bool connect(const Address &address) { return sock.connect(address); }
-	bool connect_tls(const Address &address, const std::string &host) { return sock.connect_tls(address, host); }
-	void accept(TCPAcceptor &acceptor, Address *accepted_addr = nullptr) { sock.accept(acceptor, accepted_addr); }
+	bool connect(const Address &address) {
+		close();
+		return sock.connect(address);
+	}
+	bool connect_tls(const Address &address, const std::string &host) {
+		close();
+		return sock.connect_tls(address, host);
+	}
+	void accept(TCPAcceptor &acceptor, Address *accepted_addr = nullptr) {
+		close();
+		sock.accept(acceptor, accepted_addr);
+	}
 
 	size_t read_some(uint8_t *val, size_t count) override;
 	using IStream::read_some;  // Version for other char types
-- 
2.43.0


From 2221d83d5b832916dc039b3dff83a5a3c6021264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:45 +0000
Subject: [PATCH 23/29] fix: TCPSocket::read_some of zero bytes must not be
 taken for remote close

---
 include/crab/network_posix.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crab/network_posix.hxx b/include/crab/network_posix.hxx
index 0e3aa01..f1b7dcd 100644
--- a/include/crab/network_posix.hxx
+++ b/include/crab/network_posix.hxx
@@ -488,11 +488,10 @@ CRAB_INLINE void TCPSocket::accept(TCPAcceptor &acceptor, Address *accepted_addr
 }
 
 CRAB_INLINE size_t TCPSocket::read_some(uint8_t *data, size_t count) {
-	if (!fd.is_valid() || !rwd_handler.can_read)
+	if (!fd.is_valid() || !rwd_handler.can_read || count == 0)  // recv of 0 bytes returns 0, like remote close
 		return 0;
 	RunLoop::current()->stats.RECV_count += 1;
 	RunLoop::current()->stats.push_record("recv", fd.get_value(), int(count));
-	// TODO - decide what happens when count is 0
 	ssize_t result = ::recv(fd.get_value(), data, count, details::CRAB_MSG_NOSIGNAL);
 	RunLoop::current()->stats.push_record("R(recv)", fd.get_value(), int(result));
 	if (result == 0) {  // remote closed
@@ -531,7 +530,8 @@ CRAB_INLINE size_t TCPSocket::read_some(uint8_t *val, size_t count, uint8_t *val
 		iovec[iovec_count].iov_len  = count2;
 		iovec_count += 1;
 	}
-	// TODO - decide what happens when iovec_count is 0
+	if (iovec_count == 0)  // recvmsg of 0 bytes returns 0, like remote close
+		return 0;
 	struct msghdr msg {};
 	msg.msg_iov    = iovec;
 	msg.msg_iovlen = iovec_count;
-- 
2.43.0


From df1f1af733f7c3fc2191be1141041b09d8ca3cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:45 +0000
Subject: [PATCH 24/29] fix: BufferedTCPSocket must send half-close later, if
 socket cannot write when shutdown is asked

---
 include/crab/http/connection.hpp |  2 ++
 include/crab/http/connection.hxx | 21 ++++++++++++---------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/crab/http/connection.hpp b/include/crab/http/connection.hpp
index c513166..72e2a4e 100644
--- a/include/crab/http/connection.hpp
+++ b/include/crab/http/connection.hpp
@@ -73,8 +73,10 @@ protected:
 	std::deque<StringStream> data_to_write;
 	size_t total_data_to_write = 0;
 	bool write_shutdown_asked  = false;
+	bool write_shutdown_sent   = false;
 
 	void write();
+	void send_shutdown();
 	void sock_handler();
 	void shutdown_timer_handler();
 
diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index a33b79b..3335a71 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -33,6 +33,7 @@ CRAB_INLINE void BufferedTCPSocket::close(bool with_event) {
 	data_to_write.clear();
 	total_data_to_write  = 0;
 	write_shutdown_asked = false;
+	write_shutdown_sent  = false;
 	sock.close(with_event);
 }
 
@@ -92,24 +93,26 @@ CRAB_INLINE void BufferedTCPSocket::write_shutdown() {
 	if (!sock.is_open() || write_shutdown_asked)
 		return;
 	write_shutdown_asked = true;
-	if (data_to_write.empty()) {
-		sock.write_shutdown();
-		shutdown_timer.once(WM_SHUTDOWN_TIMEOUT_SEC);
-	}
+	send_shutdown();
 }
 
 CRAB_INLINE void BufferedTCPSocket::write() {
-	bool was_empty = data_to_write.empty();
 	while (!data_to_write.empty()) {
 		total_data_to_write -= data_to_write.front().write_to(sock);
 		if (!data_to_write.front().empty())
 			break;
 		data_to_write.pop_front();
 	}
-	if (write_shutdown_asked && data_to_write.empty() && !was_empty) {
-		sock.write_shutdown();
-		shutdown_timer.once(WM_SHUTDOWN_TIMEOUT_SEC);
-	}
+	send_shutdown();
+}
+
+CRAB_INLINE void BufferedTCPSocket::send_shutdown() {
+	// Socket ignores write_shutdown() when it cannot write, so we wait until it can
+	if (!write_shutdown_asked || write_shutdown_sent || !data_to_write.empty() || !sock.can_write())
+		return;
+	write_shutdown_sent = true;
+	sock.write_shutdown();
+	shutdown_timer.once(WM_SHUTDOWN_TIMEOUT_SEC);
 }
 
 CRAB_INLINE void BufferedTCPSocket::sock_handler() {
-- 
2.43.0


From ca3be8a985b28f464796406cc8e3b6087ee9b955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:45 +0000
Subject: [PATCH 25/29] fix: ServerConnection must process requests already in
 its buffer after the response is finished

---
 include/crab/http/connection.hpp |  3 +++
 include/crab/http/connection.hxx | 14 ++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/crab/http/connection.hpp b/include/crab/http/connection.hpp
index 72e2a4e..a79903f 100644
--- a/include/crab/http/connection.hpp
+++ b/include/crab/http/connection.hpp
@@ -224,11 +224,14 @@ protected:
 	// Server-side ping required for some NATs to keep port open
 	// TCP keep-alive is set by most browsers, but surprisingly it is not enough.
 	// We reset this timer on write() only
+	Timer next_request_timer;
+	// When response is finished, next request can already be in read_buffer or socket
 
 	optional<uint64_t> remaining_body_content_length;  // empty for chunked
 
 	void sock_handler();
 	void on_wm_ping_timer();
+	void wait_next_request();
 	bool advance_state();
 
 	Handler rwd_handler;
diff --git a/include/crab/http/connection.hxx b/include/crab/http/connection.hxx
index 3335a71..1f2232c 100644
--- a/include/crab/http/connection.hxx
+++ b/include/crab/http/connection.hxx
@@ -429,6 +429,7 @@ CRAB_INLINE bool ClientConnection::advance_state() {
 CRAB_INLINE ServerConnection::ServerConnection(Handler &&rwd_handler)
     : read_buffer(8192)
     , wm_ping_timer([&]() { on_wm_ping_timer(); })
+    , next_request_timer([this]() { sock_handler(); })
     , rwd_handler(std::move(rwd_handler))
     , sock([this]() { sock_handler(); }) {}
 
@@ -442,6 +443,7 @@ CRAB_INLINE void ServerConnection::accept(TCPAcceptor &acceptor) {
 CRAB_INLINE void ServerConnection::close() {
 	read_buffer.clear();
 	wm_ping_timer.cancel();
+	next_request_timer.cancel();
 	web_message.reset();
 	sock.close();
 	state                    = REQUEST_HEADER;
@@ -597,8 +599,7 @@ CRAB_INLINE void ServerConnection::write(const uint8_t *val, size_t count, Buffe
 				read_buffer.clear();
 				sock.write_shutdown();
 			}
-			request_parser = RequestParser{};
-			state          = REQUEST_HEADER;
+			wait_next_request();
 		}
 		return;
 	}
@@ -633,8 +634,7 @@ CRAB_INLINE void ServerConnection::write(std::string &&ss, BufferOptions bo) {
 				read_buffer.clear();
 				sock.write_shutdown();
 			}
-			request_parser = RequestParser{};
-			state          = REQUEST_HEADER;
+			wait_next_request();
 		}
 		return;
 	}
@@ -665,6 +665,12 @@ CRAB_INLINE void ServerConnection::write_last_chunk(BufferOptions bo) {
 		read_buffer.clear();
 		sock.write_shutdown();
 	}
+	wait_next_request();
+}
+
+CRAB_INLINE void ServerConnection::wait_next_request() {
+	if (request_parser.req.keep_alive)  // No socket event will come for bytes we already have, or ignored while writing body
+		next_request_timer.once(0);
 	request_parser = RequestParser{};
 	state          = REQUEST_HEADER;
 }
-- 
2.43.0


From 4930b5cfd0317228aeb74260f2f8a51c54875051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:04 +0000
Subject: [PATCH 26/29] fix: RequestParser must end the request line at one
 newline after trailing spaces

---
 include/crab/http/request_parser.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crab/http/request_parser.hxx b/include/crab/http/request_parser.hxx
index b3fc137..61e9ffd 100644
--- a/include/crab/http/request_parser.hxx
+++ b/include/crab/http/request_parser.hxx
@@ -159,9 +159,11 @@ CRAB_INLINE RequestParser::State RequestParser::consume(char input) {
 	case STATUS_LINE_CR:
 		if (is_sp(input))
 			return STATUS_LINE_CR;
+		if (input == '\r')
+			return STATUS_LINE_LF;
 		if (input != '\n')
 			throw std::runtime_error{"Newline is expected"};
-		return STATUS_LINE_LF;
+		return FIRST_HEADER_LINE_START;
 	case STATUS_LINE_LF:
 		if (input != '\n')
 			throw std::runtime_error{"Newline is expected"};
-- 
2.43.0


From 6fc554d5656a4283cd2cf63d9a341b49c414f33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:47 +0000
Subject: [PATCH 27/29] fix: WebSocket handler that throws on CLOSE does not
 get second CLOSE on disconnect

---
 include/crab/http/server.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index c36a939..b894a1c 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -186,17 +186,17 @@ CRAB_INLINE void Server::on_client_handle_request(Client *who, Request &&request
 }
 
 CRAB_INLINE void Server::on_client_handle_message(Client *who, WebMessage &&message) {
+	auto opcode = message.opcode;
 	try {
-		auto opcode = message.opcode;
 		if (who->ws_handler)
 			who->ws_handler(std::move(message));
-		if (opcode == WebMessageOpcode::CLOSE)
-			who->ws_handler = nullptr;  // So we will not send second CLOSE on disconnect
 	} catch (const std::exception &ex) {
 		std::cout << "HTTP socket request leads to throw/catch, what=" << ex.what() << std::endl;
 		who->write(WebMessage{WebMessageOpcode::CLOSE, ex.what(), WebMessage::CLOSE_STATUS_ERROR});
 		// TODO - hope we do not leak security messages there
 	}
+	if (opcode == WebMessageOpcode::CLOSE)
+		who->ws_handler = nullptr;  // So we will not send second CLOSE on disconnect, even if handler throws
 }
 
 }}  // namespace crab::http
-- 
2.43.0


From 178a7bbb3d228084da9602334ee87452ffe0a7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:47 +0000
Subject: [PATCH 28/29] fix: handlers that throw on disconnect do not leave
 client in the server

---
 include/crab/http/server.hxx | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index b894a1c..d58c720 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -146,13 +146,23 @@ CRAB_INLINE void Server::accept_all() {
 
 CRAB_INLINE void Server::on_client_disconnected(std::list<Client>::iterator it) {
 	Client *who = &*it;
+	// All handlers must be called and client must be forgotten, even if some handler throws
+	auto call = [](const Handler &handler) {
+		try {
+			handler();
+		} catch (const std::exception &ex) {
+			std::cout << "HTTP disconnect handler leads to throw/catch, what=" << ex.what() << std::endl;
+		}
+	};
 	if (who->d_handler)
-		who->d_handler();
+		call(who->d_handler);
 	if (who->rwd_handler)
-		who->rwd_handler();
+		call(who->rwd_handler);
 	if (who->ws_handler)
-		who->ws_handler(WebMessage{WebMessageOpcode::CLOSE, {},
-		    who->web_message_close_sent ? WebMessage::CLOSE_STATUS_NORMAL : WebMessage::CLOSE_STATUS_DISCONNECT});
+		call([who]() {
+			who->ws_handler(WebMessage{WebMessageOpcode::CLOSE, {},
+			    who->web_message_close_sent ? WebMessage::CLOSE_STATUS_NORMAL : WebMessage::CLOSE_STATUS_DISCONNECT});
+		});
 	clients.erase(it);
 	accept_all();  // In case we were over limit
 }
-- 
2.43.0


From 5f604dee1bef31f5f12e701b5ec26ecf3fc211ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:47 +0000
Subject: [PATCH 29/29] fix: stream handler that throws disconnects its client
 instead of stopping the run loop

---
 include/crab/http/server.hxx | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/crab/http/server.hxx b/include/crab/http/server.hxx
index d58c720..2ce4411 100644
--- a/include/crab/http/server.hxx
+++ b/include/crab/http/server.hxx
@@ -122,8 +122,17 @@ CRAB_INLINE void Server::on_client_handler(std::list<Client>::iterator it) {
 		return on_client_disconnected(it);
 	WebMessage message;
 	Request request;
-	if (who->rwd_handler)
-		who->rwd_handler();
+	if (who->rwd_handler) {
+		try {
+			who->rwd_handler();
+		} catch (const std::exception &ex) {
+			std::cout << "HTTP stream handler leads to throw/catch, what=" << ex.what() << std::endl;
+			// Part of response or message is already sent, so we can only disconnect
+			who->rwd_handler = nullptr;
+			who->close();
+			return on_client_disconnected(it);
+		}
+	}
 	while (true) {
 		if (who->read_next(message)) {
 			on_client_handle_message(who, std::move(message));
-- 
2.43.0

