From bd2d1be75dfb830d35ae8a30c48b6f365ed48283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:11 +0000
Subject: [PATCH 01/52] fix: GltfDataBuffer::FromPath reports a file that could
 not be read completely

A short or failing read left the rest of the buffer uninitialised and the
load continued with it.
---
 src/io.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io.cpp b/src/io.cpp
index 40a7eb1..c49a4a0 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -63,6 +63,11 @@ fg::GltfDataBuffer::GltfDataBuffer(const fs::path& path) noexcept {
 	if (buffer != nullptr) {
 		// Copy the data and fill the padding region with zeros.
 		file.read(reinterpret_cast<std::ifstream::char_type*>(buffer.get()), static_cast<std::streamsize>(dataSize));
+		if (file.gcount() != static_cast<std::streamsize>(dataSize)) {
+			// The file could not be read completely.
+			error = Error::InvalidPath;
+			return;
+		}
 		std::memset(buffer.get() + dataSize, 0, allocatedSize - dataSize);
 	} else {
 		error = Error::FileBufferAllocationFailed;
-- 
2.43.0


From 8e4d9ac364c40e7b1dcfa538d857d0111238b1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:11 +0000
Subject: [PATCH 02/52] fix: GltfFileStream survives missing files, rewinds
 after an error and reports short reads

The constructor threw for a missing file before isOpen could be asked,
reset() kept the fail bits of an earlier read, and a short read returned a
span of the full size.
---
 src/io.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index c49a4a0..b7ea111 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -124,7 +124,13 @@ std::size_t fg::GltfDataBuffer::totalSize() {
 }
 
 fg::GltfFileStream::GltfFileStream(const fs::path& path) : fileStream(path, std::ios::binary) {
-	fileSize = fs::file_size(path);
+	std::error_code ec;
+	fileSize = static_cast<std::size_t>(fs::file_size(path, ec));
+	if (ec) {
+		// isOpen reports the failure.
+		fileSize = 0;
+		fileStream.close();
+	}
 }
 
 bool fg::GltfFileStream::isOpen() const {
@@ -145,10 +151,13 @@ fg::span<std::byte> fg::GltfFileStream::read(std::size_t count, std::size_t padd
 			reinterpret_cast<char*>(buf.data()),
 			static_cast<std::streamsize>(count));
 
-	return span<std::byte>(reinterpret_cast<std::byte*>(buf.data()), buf.size());
+	// The padding is not part of the span, and neither are bytes that could not be read.
+	return span<std::byte>(reinterpret_cast<std::byte*>(buf.data()), static_cast<std::size_t>(fileStream.gcount()));
 }
 
 void fg::GltfFileStream::reset() {
+	// A previous read may have hit the end of the file, which would make every further read fail.
+	fileStream.clear();
 	fileStream.seekg(0, std::ifstream::beg);
 }
 
-- 
2.43.0


From 5c07abc1d6f971cd16be3fc28a0bc42e6123a546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:54 +0000
Subject: [PATCH 03/52] fix: MappedGltfFile provides the padding simdjson
 reads, maps empty files and closes its descriptor

The mapping ended with the file, so parsing a file whose size is at or just
below a page multiple read past the mapping. Empty files could not be mapped
and the descriptor leaked when fstat failed.
---
 src/io.cpp | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index b7ea111..445b5c3 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -219,18 +219,32 @@ fg::MappedGltfFile::MappedGltfFile(const fs::path& path) noexcept : mappedFile(M
 	struct stat statInfo {};
 	if (fstat(fd, &statInfo) != 0) {
 		error = Error::InvalidPath;
+		close(fd);
+		return;
+	}
+	if (!S_ISREG(statInfo.st_mode)) {
+		error = Error::InvalidPath;
+		close(fd);
 		return;
 	}
 
-	// Map the file
-	mappedFile = mmap(nullptr,
-					  statInfo.st_size,
-					  PROT_READ,
-					  MAP_PRIVATE,
-					  fd,
-					  0);
+	// simdjson reads up to SIMDJSON_PADDING bytes past the end of the data, which may lie on the page
+	// after the file's last one. Reserve zeroed memory for both, and map the file over its start.
+	const auto size = static_cast<std::size_t>(statInfo.st_size);
+	auto* reserved = mmap(nullptr,
+						  size + simdjson::SIMDJSON_PADDING,
+						  PROT_READ,
+						  MAP_PRIVATE | MAP_ANONYMOUS,
+						  -1,
+						  0);
+	if (reserved != MAP_FAILED && size != 0
+		&& mmap(reserved, size, PROT_READ, MAP_PRIVATE | MAP_FIXED, fd, 0) == MAP_FAILED) {
+		munmap(reserved, size + simdjson::SIMDJSON_PADDING);
+		reserved = MAP_FAILED;
+	}
+	mappedFile = reserved;
 	if (mappedFile != MAP_FAILED) {
-		fileSize = static_cast<std::uint64_t>(statInfo.st_size);
+		fileSize = static_cast<std::uint64_t>(size);
 
 		// Hint about map access
 		madvise(mappedFile, fileSize, MADV_SEQUENTIAL);
@@ -274,8 +288,8 @@ fg::MappedGltfFile& fg::MappedGltfFile::operator=(fastgltf::MappedGltfFile &&oth
 	}
 	fileHandle = std::exchange(other.fileHandle, nullptr);
 #else
-	if (mappedFile != MAP_FAILED) {
-		munmap(mappedFile, fileSize);
+	if (mappedFile != MAP_FAILED && mappedFile != nullptr) {
+		munmap(mappedFile, fileSize + simdjson::SIMDJSON_PADDING);
 	}
 	mappedFile = std::exchange(other.mappedFile, MAP_FAILED);
 #endif
@@ -297,8 +311,8 @@ fg::MappedGltfFile::~MappedGltfFile() noexcept {
 		CloseHandle(fileHandle);
 	}
 #else
-	if (mappedFile != MAP_FAILED) {
-		munmap(mappedFile, fileSize);
+	if (mappedFile != MAP_FAILED && mappedFile != nullptr) {
+		munmap(mappedFile, fileSize + simdjson::SIMDJSON_PADDING);
 	}
 #endif
 }
-- 
2.43.0


From 8660f1341db2a9eb0618192346c58eb1c341a5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:54 +0000
Subject: [PATCH 04/52] fix: determineGltfFileType rewinds first, stays inside
 the file and skips all leading JSON whitespace

It read twelve bytes from wherever the source was positioned, even from
shorter files, and only found a '{' among the first four bytes.
---
 src/fastgltf.cpp | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 4591179..fb42887 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4814,25 +4814,37 @@ fg::Error fg::Parser::parsePhysicsRigidBody(simdjson::dom::object& khr_physics_r
 
 #pragma region Parser
 fg::GltfType fg::determineGltfFileType(GltfDataGetter& data) {
-	// We'll try and read a BinaryGltfHeader from the buffer to see if the magic is correct.
-	auto header = readBinaryHeader(data);
 	data.reset();
-	if (header.magic == binaryGltfHeaderMagic) {
-		return GltfType::GLB;
+	const auto size = data.totalSize();
+
+	// We'll try and read the magic of a BinaryGltfHeader from the buffer.
+	if (size >= sizeof(BinaryGltfHeader::magic)) {
+		std::array<std::byte, sizeof(BinaryGltfHeader::magic)> bytes {};
+		data.read(bytes.data(), bytes.size());
+		data.reset();
+
+		std::uint32_t magic = 0;
+		readUint32LE(magic, bytes.data());
+		if (magic == binaryGltfHeaderMagic) {
+			return GltfType::GLB;
+		}
 	}
 
-	// First, check if any of the first four characters is a '{'.
-	std::array<std::uint8_t, 4> begin = {};
-	data.read(begin.data(), begin.size());
-	data.reset();
-	for (const auto& i : begin) {
-		if (static_cast<char>(i) == ' ')
+	// Otherwise, the first character after any whitespace and an optional byte-order mark has to be a '{'.
+	constexpr std::string_view byteOrderMark = "\xEF\xBB\xBF";
+	auto type = GltfType::Invalid;
+	for (std::size_t i = 0; i < size; ++i) {
+		char c = 0;
+		data.read(&c, 1);
+		if ((i < byteOrderMark.size() && c == byteOrderMark[i]) || c == ' ' || c == '\t' || c == '\n' || c == '\r')
 			continue;
-		if (static_cast<char>(i) == '{')
-			return GltfType::glTF;
+		if (c == '{')
+			type = GltfType::glTF;
+		break;
 	}
+	data.reset();
 
-	return GltfType::Invalid;
+	return type;
 }
 
 fg::Parser::Parser(Extensions extensionsToLoad) noexcept {
-- 
2.43.0


From 60dd0be3b79c563741198eac2c3bfdb2478ebad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:44 +0000
Subject: [PATCH 05/52] fix: loading fails when the source delivers fewer bytes
 than it announced

The JSON text and the GLB's binary chunk were used as if every read succeeded,
with whatever the memory held before.
---
 src/fastgltf.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index fb42887..bb86fd0 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4891,10 +4891,14 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfJson(GltfDataGetter& data, fs::path
 #endif
 
 	data.reset();
-	auto jsonSpan = data.read(data.totalSize(), SIMDJSON_PADDING);
+	const auto totalSize = data.totalSize();
+	auto jsonSpan = data.read(totalSize, SIMDJSON_PADDING);
+	if (jsonSpan.size() < totalSize) FASTGLTF_UNLIKELY {
+		return Error::InvalidFileData;
+	}
 	padded_string_view view(reinterpret_cast<const std::uint8_t*>(jsonSpan.data()),
-									  data.totalSize(),
-									  data.totalSize() + SIMDJSON_PADDING);
+									  totalSize,
+									  totalSize + SIMDJSON_PADDING);
 	dom::object root;
     if (auto error = jsonParser->parse(view).get(root); error != SUCCESS) FASTGLTF_UNLIKELY {
 	    return Error::InvalidJson;
@@ -4938,6 +4942,9 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
     // Create a string view of the JSON chunk in the GLB data buffer. The documentation of parse()
     // says the padding can be initialised to anything, apparently. Therefore, this should work.
 	auto jsonSpan = data.read(jsonChunk.chunkLength, SIMDJSON_PADDING);
+	if (jsonSpan.size() < jsonChunk.chunkLength) FASTGLTF_UNLIKELY {
+		return Error::InvalidFileData;
+	}
     simdjson::padded_string_view jsonChunkView(reinterpret_cast<const std::uint8_t*>(jsonSpan.data()),
                                                jsonChunk.chunkLength,
                                                jsonChunk.chunkLength + SIMDJSON_PADDING);
@@ -4961,6 +4968,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 				return Error::InvalidGLB;
 			}
 
+			const auto binaryEnd = data.bytesRead() + binaryChunk.chunkLength;
 			if (config.mapCallback != nullptr) {
 				auto info = config.mapCallback(binaryChunk.chunkLength, config.userPointer);
 				if (info.mappedMemory != nullptr) {
@@ -4968,11 +4976,17 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 					if (config.unmapCallback != nullptr) {
 						config.unmapCallback(&info, config.userPointer);
 					}
+					if (data.bytesRead() != binaryEnd) FASTGLTF_UNLIKELY {
+						return Error::InvalidFileData;
+					}
 					glbBuffer = sources::CustomBuffer{info.customId, MimeType::None};
 				}
 			} else {
 				StaticVector<std::byte> binaryData(binaryChunk.chunkLength);
 				data.read(binaryData.data(), binaryChunk.chunkLength);
+				if (data.bytesRead() != binaryEnd) FASTGLTF_UNLIKELY {
+					return Error::InvalidFileData;
+				}
 
 				sources::Array vectorData = {
 					std::move(binaryData),
-- 
2.43.0


From eb628b191cc90ee358766cab30e83417c4782655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:44 +0000
Subject: [PATCH 06/52] fix: GLB chunks have to lie inside the container

The JSON chunk could reach eight bytes past the end of the file, files shorter
than the headers were read past their end, and chunks could exceed the declared
length of the container.
---
 src/fastgltf.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index bb86fd0..737f5d7 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4920,6 +4920,11 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 
 	data.reset();
 
+	constexpr auto minimumSize = sizeof(BinaryGltfHeader) + sizeof(BinaryGltfChunk);
+	if (data.totalSize() < minimumSize) {
+		return Error::InvalidGLB;
+	}
+
     auto header = readBinaryHeader(data);
     if (header.magic != binaryGltfHeaderMagic) {
 	    return Error::InvalidGLB;
@@ -4927,7 +4932,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 	if (header.version != 2) {
 		return Error::UnsupportedVersion;
 	}
-    if (header.length > data.totalSize()) {
+    if (header.length < minimumSize || header.length > data.totalSize()) {
 	    return Error::InvalidGLB;
     }
 
@@ -4935,7 +4940,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
     //  1. JSON chunk
     //  2. BIN chunk (optional)
     auto jsonChunk = readBinaryChunk(data);
-    if (jsonChunk.chunkType != binaryGltfJsonChunkMagic || jsonChunk.chunkLength > data.totalSize() - sizeof(BinaryGltfHeader)) {
+    if (jsonChunk.chunkType != binaryGltfJsonChunkMagic || jsonChunk.chunkLength > header.length - minimumSize) {
 	    return Error::InvalidGLB;
     }
 
@@ -4964,7 +4969,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 
 		// TODO: Somehow allow skipping the binary part in the future?
 		if (binaryChunk.chunkLength != 0) {
-			if (binaryChunk.chunkLength > data.totalSize() - data.bytesRead()) {
+			if (binaryChunk.chunkLength > header.length - data.bytesRead()) {
 				return Error::InvalidGLB;
 			}
 
-- 
2.43.0


From 3e92e25044f8a486256ddb3f736fb56423e79633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:44 +0000
Subject: [PATCH 07/52] fix: a parser does not carry the binary chunk of one
 file into the next

The first buffer without an URI in a later file got the (moved-from) binary
chunk of an earlier GLB instead of being rejected.
---
 src/fastgltf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 737f5d7..d914da2 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4882,6 +4882,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfJson(GltfDataGetter& data, fs::path
 
 	options = _options;
 	directory = std::move(_directory);
+	glbBuffer = std::monostate {};
 
 #if !defined(__ANDROID__)
     // If we never have to load the files ourselves, we're fine with the directory being invalid/blank.
@@ -4912,6 +4913,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 
 	options = _options;
 	directory = std::move(_directory);
+	glbBuffer = std::monostate {};
 
     // If we never have to load the files ourselves, we're fine with the directory being invalid/blank.
     if (std::error_code ec; hasBit(options, Options::LoadExternalBuffers) && (!fs::is_directory(directory, ec) || ec)) {
-- 
2.43.0


From dd91037338b9ac553d7131423b80298a24cc35c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:44 +0000
Subject: [PATCH 08/52] fix: the GLB binary chunk is kept when the map callback
 provides no memory

It was dropped, unlike data URIs and external files, which fall back to holding
the data.
---
 src/fastgltf.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index d914da2..ddcab08 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4988,7 +4988,10 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 					}
 					glbBuffer = sources::CustomBuffer{info.customId, MimeType::None};
 				}
-			} else {
+			}
+
+			// Without a callback, or if it did not provide any memory, we hold the data ourselves.
+			if (std::holds_alternative<std::monostate>(glbBuffer)) {
 				StaticVector<std::byte> binaryData(binaryChunk.chunkLength);
 				data.read(binaryData.data(), binaryChunk.chunkLength);
 				if (data.bytesRead() != binaryEnd) FASTGLTF_UNLIKELY {
-- 
2.43.0


From 9963efc54d7e780569e70e97a5c9a050609255d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:44 +0000
Subject: [PATCH 09/52] fix: an exception from a user's data getter reaches the
 caller

The helpers reading the GLB headers were noexcept, so such an exception ended
the process.
---
 src/fastgltf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index ddcab08..db112e1 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -92,7 +92,7 @@ namespace fastgltf {
 	}
 
 	/** GLBs are always little-endian, meaning we need to read the values accordingly */
-	[[nodiscard, gnu::always_inline]] inline auto readBinaryHeader(GltfDataGetter& getter) noexcept {
+	[[nodiscard, gnu::always_inline]] inline auto readBinaryHeader(GltfDataGetter& getter) {
 		std::array<std::byte, sizeof(BinaryGltfHeader)> bytes {};
 		getter.read(bytes.data(), bytes.size());
 
@@ -117,7 +117,7 @@ namespace fastgltf {
     };
 	static_assert(std::is_trivially_copyable_v<BinaryGltfChunk>);
 
-	[[nodiscard, gnu::always_inline]] inline auto readBinaryChunk(GltfDataGetter& getter) noexcept {
+	[[nodiscard, gnu::always_inline]] inline auto readBinaryChunk(GltfDataGetter& getter) {
 		std::array<std::byte, sizeof(BinaryGltfChunk)> bytes {};
 		getter.read(bytes.data(), bytes.size());
 
-- 
2.43.0


From aa02ed8538b373929b32258759d0fad3144fb674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:53 +0000
Subject: [PATCH 10/52] fix: an external buffer or image that cannot be read
 completely fails the load

Opening and reading the file was never checked, so an unreadable or shrinking
file gave an asset with uninitialised data.
---
 src/io.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 445b5c3..4b2a1f0 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -473,22 +473,36 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noe
 	}
 
 	std::ifstream file(path, std::ios::binary);
+	if (!file.is_open()) {
+		return Error::MissingExternalBuffer;
+	}
+
+	// The file has to have exactly the length we determined; it may fail to be read or change meanwhile.
+	const auto readFile = [&file, length](void* destination) {
+		file.read(static_cast<char*>(destination), length);
+		return file.gcount() == length && file.peek() == std::ifstream::traits_type::eof() && !file.bad();
+	};
 
 	if (config.mapCallback != nullptr) {
 		auto info = config.mapCallback(static_cast<std::uint64_t>(length), config.userPointer);
 		if (info.mappedMemory != nullptr) {
 			const sources::CustomBuffer customBufferSource = { info.customId };
-			file.read(static_cast<char*>(info.mappedMemory), length);
+			const auto complete = readFile(info.mappedMemory);
 			if (config.unmapCallback != nullptr) {
 				config.unmapCallback(&info, config.userPointer);
 			}
 
+			if (!complete) {
+				return Error::MissingExternalBuffer;
+			}
 			return { customBufferSource };
 		}
 	}
 
 	StaticVector<std::byte> data(static_cast<std::size_t>(length));
-	file.read(reinterpret_cast<char*>(data.data()), length);
+	if (!readFile(data.data())) {
+		return Error::MissingExternalBuffer;
+	}
 	sources::Array arraySource {
 		std::move(data),
 	};
-- 
2.43.0


From bb519ba368d9ecc01cfcca02e6c6cc81e084839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:53 +0000
Subject: [PATCH 11/52] fix: buffers have to hold at least the bytes they
 declare

A truncated external file, a short data URI or a short GLB chunk was accepted
although the buffer declares more bytes, so every later access went out of
bounds. Malformed base64 (not in groups of four) is rejected, as its decoded
size is not defined. The helpers are no longer noexcept, as they allocate the
buffers.
---
 include/fastgltf/core.hpp |  7 ++++---
 src/fastgltf.cpp          | 30 +++++++++++++++++++++---------
 src/io.cpp                | 12 +++++++++---
 3 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/include/fastgltf/core.hpp b/include/fastgltf/core.hpp
index f8b29a4..334dcd7 100644
--- a/include/fastgltf/core.hpp
+++ b/include/fastgltf/core.hpp
@@ -831,6 +831,7 @@ namespace fastgltf {
 
 		ParserInternalConfig config = {};
 		DataSource glbBuffer;
+		std::size_t glbBufferLength = 0;
 #if !FASTGLTF_DISABLE_CUSTOM_MEMORY_POOL
 		std::shared_ptr<std::pmr::monotonic_buffer_resource> resourceAllocator;
 #endif
@@ -843,10 +844,10 @@ namespace fastgltf {
 		template <typename T>
 		Error parseAttributes(simdjson::dom::object& object, T& attributes);
 
-		[[nodiscard]] auto decodeDataUri(const URIView& uri) const noexcept -> Expected<DataSource>;
-		[[nodiscard]] auto loadFileFromUri(URIView& uri) const noexcept -> Expected<DataSource>;
+		[[nodiscard]] auto decodeDataUri(const URIView& uri, std::size_t minimumLength = 0) const -> Expected<DataSource>;
+		[[nodiscard]] auto loadFileFromUri(URIView& uri, std::size_t minimumLength = 0) const -> Expected<DataSource>;
 #if defined(__ANDROID__)
-		[[nodiscard]] auto loadFileFromApk(const std::filesystem::path& filepath) const noexcept -> Expected<DataSource>;
+		[[nodiscard]] auto loadFileFromApk(const std::filesystem::path& filepath, std::size_t minimumLength = 0) const -> Expected<DataSource>;
 #endif
 
 		Error generateMeshIndices(Asset& asset) const;
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index db112e1..d9dae1a 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -669,22 +669,30 @@ bool fg::URI::isDataUri() const noexcept {
 #pragma endregion
 
 #pragma region glTF parsing
-fg::Expected<fg::DataSource> fg::Parser::decodeDataUri(const URIView& uri) const noexcept {
+fg::Expected<fg::DataSource> fg::Parser::decodeDataUri(const URIView& uri, std::size_t minimumLength) const {
     auto path = uri.path();
     auto mimeEnd = path.find(';');
-    auto mime = path.substr(0, mimeEnd);
-
     auto encodingEnd = path.find(',');
+	if (mimeEnd == std::string_view::npos || encodingEnd == std::string_view::npos || encodingEnd < mimeEnd) {
+		return Error::InvalidURI;
+	}
+    auto mime = path.substr(0, mimeEnd);
     auto encoding = path.substr(mimeEnd + 1, encodingEnd - mimeEnd - 1);
     if (encoding != "base64") {
 		return Error::InvalidURI;
     }
 
     auto encodedData = path.substr(encodingEnd + 1);
+	if (encodedData.empty() || encodedData.size() % 4 != 0) {
+		return Error::InvalidURI;
+	}
+	auto padding = base64::getPadding(encodedData);
+	auto size = base64::getOutputSize(encodedData.size(), padding);
+	if (size < minimumLength) {
+		return Error::InvalidGltf;
+	}
     if (config.mapCallback != nullptr) {
         // If a map callback is specified, we use a pointer to memory specified by it.
-        auto padding = base64::getPadding(encodedData);
-        auto size = base64::getOutputSize(encodedData.size(), padding);
         auto info = config.mapCallback(size, config.userPointer);
         if (info.mappedMemory != nullptr) {
             if (config.decodeCallback != nullptr) {
@@ -705,8 +713,7 @@ fg::Expected<fg::DataSource> fg::Parser::decodeDataUri(const URIView& uri) const
     }
 
 	// Decode the base64 data into a traditional vector
-	auto padding = base64::getPadding(encodedData);
-	fg::StaticVector<std::byte> uriData(base64::getOutputSize(encodedData.size(), padding));
+	fg::StaticVector<std::byte> uriData(size);
 	if (config.decodeCallback != nullptr) {
 		config.decodeCallback(encodedData, reinterpret_cast<std::uint8_t*>(uriData.data()), padding, uriData.size(), config.userPointer);
 	} else {
@@ -2011,14 +2018,14 @@ fg::Error fg::Parser::parseBuffers(simdjson::dom::array& buffers, Asset& asset)
             }
 
             if (uriView.isDataUri()) {
-                auto [error, source] = decodeDataUri(uriView);
+                auto [error, source] = decodeDataUri(uriView, buffer.byteLength);
                 if (error != Error::None) {
                     return error;
                 }
 
                 buffer.data = std::move(source);
             } else if (uriView.isLocalPath() && hasBit(options, Options::LoadExternalBuffers)) {
-	            auto [error, source] = loadFileFromUri(uriView);
+	            auto [error, source] = loadFileFromUri(uriView, buffer.byteLength);
                 if (error != Error::None) {
                     return error;
                 }
@@ -2031,6 +2038,10 @@ fg::Error fg::Parser::parseBuffers(simdjson::dom::array& buffers, Asset& asset)
                 buffer.data = std::move(filePath);
             }
         } else if (bufferIndex == 0 && !std::holds_alternative<std::monostate>(glbBuffer)) {
+            // The binary chunk may be padded, but never shorter than the buffer.
+            if (glbBufferLength < buffer.byteLength) {
+                return Error::InvalidGltf;
+            }
             buffer.data = std::move(glbBuffer);
         } else if (meshoptCompressionRequired) {
 			// This buffer is not a GLB buffer and has no URI source and is therefore a fallback.
@@ -4975,6 +4986,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 				return Error::InvalidGLB;
 			}
 
+			glbBufferLength = binaryChunk.chunkLength;
 			const auto binaryEnd = data.bytesRead() + binaryChunk.chunkLength;
 			if (config.mapCallback != nullptr) {
 				auto info = config.mapCallback(binaryChunk.chunkLength, config.userPointer);
diff --git a/src/io.cpp b/src/io.cpp
index 4b2a1f0..096ce95 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -398,7 +398,7 @@ fg::AndroidGltfDataBuffer::AndroidGltfDataBuffer(const fs::path& path, std::uint
 
 #pragma region Parser I/O
 #if defined(__ANDROID__)
-fg::Expected<fg::DataSource> fg::Parser::loadFileFromApk(const fs::path& path) const noexcept {
+fg::Expected<fg::DataSource> fg::Parser::loadFileFromApk(const fs::path& path, std::size_t minimumLength) const {
 	auto file = deletable_unique_ptr<AAsset, AAsset_close>(
 		AAssetManager_open(androidAssetManager, path.c_str(), AASSET_MODE_BUFFER));
 	if (file == nullptr) {
@@ -409,6 +409,9 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromApk(const fs::path& path) c
 	if (length == 0) {
 		return Error::MissingExternalBuffer;
 	}
+	if (static_cast<std::size_t>(length) < minimumLength) {
+		return Error::InvalidGltf;
+	}
 
 	if (config.mapCallback != nullptr) {
 		auto info = config.mapCallback(static_cast<std::uint64_t>(length), config.userPointer);
@@ -432,7 +435,7 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromApk(const fs::path& path) c
 }
 #endif
 
-fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noexcept {
+fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri, std::size_t minimumLength) const {
 	URI decodedUri(uri.path()); // Re-allocate so we can decode potential characters.
 	// JSON strings are always in UTF-8, so we can safely always use u8path here.
 	// Since u8path is deprecated with C++20 and newer, u8path is deprecated.
@@ -455,7 +458,7 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noe
 #if defined(__ANDROID__)
 	if (androidAssetManager != nullptr) {
 		// Try to load external buffers from the APK. If they're not there, fall through to the file case
-		if (auto androidResult = loadFileFromApk(path); androidResult.error() == Error::None) {
+		if (auto androidResult = loadFileFromApk(path, minimumLength); androidResult.error() == Error::None) {
 			return std::move(androidResult.get());
 		}
 	}
@@ -471,6 +474,9 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noe
 	if (error) {
 		return Error::InvalidURI;
 	}
+	if (static_cast<std::size_t>(length) < minimumLength) {
+		return Error::InvalidGltf;
+	}
 
 	std::ifstream file(path, std::ios::binary);
 	if (!file.is_open()) {
-- 
2.43.0


From dcb07fa669ed5eaf21290ff52331f41db96b6d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:53 +0000
Subject: [PATCH 12/52] fix: base64 decoding stays inside its table and output
 for every input

Bytes above 127 indexed past the end of the lookup table, and the SSE4 decoder
could write up to three bytes past the end of the output.
---
 src/base64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index fa50c46..68151cc 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -226,7 +226,7 @@ namespace fastgltf::base64 {
     // allocate any new memory to hold the encoded data and let the fallback decoder decode the
     // remaining data.
 	const auto encodedSize = encoded.size();
-	const auto alignedSize = encodedSize - (encodedSize % dataOutputSize);
+	const auto alignedSize = encodedSize - (encodedSize % dataSetSize);
     auto* out = output;
 
     // _mm_setr_epi8 accepts only 'char' but 0xff would overflow a signed char, which makes some compilers unhappy.
@@ -364,7 +364,7 @@ fg::StaticVector<std::uint8_t> fg::base64::neon_decode(std::string_view encoded)
 
 // clang-format off
 // ASCII value -> base64 value LUT
-static constexpr std::array<std::uint8_t, 128> base64lut = {
+static constexpr std::array<std::uint8_t, 256> base64lut = {
     0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,62,0,0,0,63,
     52, 53, 54, 55, 56, 57, 58, 59, 60, 61,
     0,0,0,0,0,0,0,
-- 
2.43.0


From 4cafd3410b3638848ad5ba13ea33a1a67e531162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:11 +0000
Subject: [PATCH 13/52] fix: parsing a URI never reads past its end and starts
 from a clean state

---
 src/fastgltf.cpp | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index d9dae1a..c69d8d0 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -410,6 +410,7 @@ fg::URIView& fg::URIView::operator=(const URIView& other) {
 	_port = other._port;
 	_query = other._query;
 	_fragment = other._fragment;
+	_valid = other._valid;
 	return *this;
 }
 
@@ -420,8 +421,9 @@ fg::URIView& fg::URIView::operator=(std::string_view other) {
 }
 
 void fg::URIView::parse() {
-	if (view.empty()) {
-		_valid = false;
+	_scheme = _path = _userinfo = _host = _port = _query = _fragment = {};
+	_valid = !view.empty();
+	if (!_valid) {
 		return;
 	}
 
@@ -441,38 +443,37 @@ void fg::URIView::parse() {
 	if (startsWith(view.substr(idx), "//")) {
 		// URI has an authority part.
 		idx += 2;
-		auto nextSlash = view.find('/', idx);
+		// The authority is terminated by the next slash, question mark, number sign, or the end of the URI.
+		const auto authorityEnd = std::min(view.find_first_of("/?#", idx), view.size());
 		auto userInfo = view.find('@', idx);
-		if (userInfo != std::string::npos && userInfo < nextSlash) {
+		if (userInfo < authorityEnd) {
 			_userinfo = view.substr(idx, userInfo - idx);
 			idx += _userinfo.size() + 1;
 		}
 
-		auto hostEnd = nextSlash - 1;
+		auto hostEnd = authorityEnd;
 		std::size_t portColon;
-		if (view[idx] == '[') {
+		if (idx < authorityEnd && view[idx] == '[') {
 			hostEnd = view.find(']', idx);
-			if (hostEnd == std::string::npos) {
+			if (hostEnd >= authorityEnd) {
 				_valid = false;
 				return;
 			}
 			// IPv6 addresses are made up of colons, so we need to search after its address.
-			// This will just be hostEnd + 1 or std::string::npos.
+			// The brackets are not part of the host.
 			portColon = view.find(':', hostEnd);
+			++idx;
 		} else {
 			portColon = view.find(':', idx);
 		}
 
-		if (portColon != std::string::npos) {
-			_host = view.substr(idx, portColon - idx);
-			++portColon; // We don't want to include the colon in the port string.
-			_port = view.substr(portColon, nextSlash - portColon);
-		} else {
-			++idx;
-			_host = view.substr(idx, hostEnd - idx);
+		if (portColon < authorityEnd) {
+			_port = view.substr(portColon + 1, authorityEnd - portColon - 1); // We don't want to include the colon in the port string.
+			hostEnd = std::min(hostEnd, portColon);
 		}
+		_host = view.substr(idx, hostEnd - idx);
 
-		idx = nextSlash; // Path includes this slash
+		idx = authorityEnd; // Path includes the slash
 	}
 
 	if (_scheme == "data") {
@@ -482,8 +483,8 @@ void fg::URIView::parse() {
 		_path = view.substr(idx);
 	} else {
 		// Parse the path.
-		auto questionIdx = view.find('?', idx);
 		auto hashIdx = view.find('#', idx);
+		auto questionIdx = view.substr(0, hashIdx).find('?', idx); // A fragment may contain question marks.
 		if (questionIdx != std::string::npos) {
 			_path = view.substr(idx, questionIdx - idx);
 
-- 
2.43.0


From 55abc8431f942988fa4565ff915229c1441ab383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:47 +0000
Subject: [PATCH 14/52] fix: percent-encoded delimiters stay in their URI
 component, and URIs copy, move and decode safely

---
 include/fastgltf/types.hpp |   9 +--
 src/fastgltf.cpp           | 135 +++++++++++++++++++++++++------------
 src/io.cpp                 |   5 +-
 3 files changed, 99 insertions(+), 50 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 4e373bf..191ee6c 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1538,14 +1538,15 @@ namespace fastgltf {
 		std::string uri;
 		URIView view;
 
-		void readjustViews(const URIView& other);
+		void decodeAndAdjustViews();
+		void readjustViews(URIView other);
 
 	public:
 		explicit URI() noexcept;
 
-		explicit URI(std::string uri) noexcept;
-		explicit URI(std::string_view uri) noexcept;
-		explicit URI(const URIView& view) noexcept;
+		explicit URI(std::string uri);
+		explicit URI(std::string_view uri);
+		explicit URI(const URIView& view);
 
 		URI(const URI& other);
 		URI(URI&& other) noexcept;
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index c69d8d0..d510b60 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -543,25 +543,46 @@ bool fg::URIView::isDataUri() const noexcept {
 
 fg::URI::URI() noexcept = default;
 
-fg::URI::URI(std::string uri) noexcept : uri(std::move(uri)) {
-	decodePercents(this->uri);
-	view = this->uri; // Also parses.
+namespace fastgltf {
+	// Returns the value of the two hexadecimal digits at the given position, or -1 if there are none.
+	static int decodePercentEscape(const std::string_view x, const std::size_t pos) noexcept {
+		if (x[pos] != '%' || x.size() - pos < 3)
+			return -1;
+
+		int value = 0;
+		for (std::size_t i = pos + 1; i < pos + 3; ++i) {
+			const auto c = x[i];
+			const auto digit = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
+			if (digit < 0)
+				return -1;
+			value = value * 16 + digit;
+		}
+		return value;
+	}
+
+	// Returns the number of characters the string has once its percent-encoded characters are decoded.
+	static std::size_t percentDecodedSize(const std::string_view x) noexcept {
+		auto size = x.size();
+		for (std::size_t i = 0; i < x.size(); ++i) {
+			if (decodePercentEscape(x, i) >= 0) {
+				size -= 2;
+				i += 2;
+			}
+		}
+		return size;
+	}
 }
 
-fg::URI::URI(std::string_view uri) noexcept : uri(uri) {
-	decodePercents(this->uri);
-	view = this->uri; // Also parses.
+fg::URI::URI(std::string uri) : uri(std::move(uri)) {
+	decodeAndAdjustViews();
 }
 
-fg::URI::URI(const URIView& view) noexcept : uri(view.view) {
-	auto oldSize = uri.size();
-	decodePercents(uri);
-	if (uri.size() == oldSize) {
-		readjustViews(view);
-	} else {
-		// Reparses the URI string
-		this->view = this->uri;
-	}
+fg::URI::URI(std::string_view uri) : uri(uri) {
+	decodeAndAdjustViews();
+}
+
+fg::URI::URI(const URIView& view) : uri(view.view) {
+	decodeAndAdjustViews();
 }
 
 // Some C++ stdlib implementations copy in some cases when moving strings, which invalidates the
@@ -572,10 +593,12 @@ fg::URI::URI(const URI& other) {
 }
 
 fg::URI::URI(URI&& other) noexcept {
-	*this = other;
+	*this = std::move(other);
 }
 
 fg::URI& fg::URI::operator=(const URI& other) {
+	if (this == &other)
+		return *this;
 	uri = other.uri;
 	// We'll assume that with copying the string will always have to reallocate.
 	readjustViews(other.view);
@@ -583,27 +606,17 @@ fg::URI& fg::URI::operator=(const URI& other) {
 }
 
 fg::URI& fg::URI::operator=(const URIView& other) {
-	uri = other.view;
-	auto oldSize = uri.size();
-	decodePercents(uri);
-	if (uri.size() == oldSize) {
-		readjustViews(other);
-	} else {
-		// We removed some encoded chars, which have now invalidated all the string views.
-		// Therefore, the URI needs to be parsed again.
-		view = this->uri;
-	}
+	uri = std::string(other.view);
+	decodeAndAdjustViews();
 	return *this;
 }
 
 fg::URI& fg::URI::operator=(URI&& other) noexcept {
+	if (this == &other)
+		return *this;
 	auto* oldData = other.uri.data();
 	uri = std::move(other.uri);
 
-	// Invalidate the previous URI's view.
-	view._valid = other.view._valid;
-	other.view._valid = false;
-
 	if (uri.data() != oldData) {
 		// Allocation changed, we need to readjust views
 		readjustViews(other.view);
@@ -611,6 +624,11 @@ fg::URI& fg::URI::operator=(URI&& other) noexcept {
 		// No reallocation happened, we can safely copy the view.
 		view = other.view;
 	}
+
+	// Invalidate the previous URI's view.
+	other.uri.clear();
+	other.view = URIView();
+	other.view._valid = false;
 	return *this;
 }
 
@@ -618,28 +636,57 @@ fg::URI::operator fg::URIView() const noexcept {
 	return view;
 }
 
-void fg::URI::readjustViews(const URIView& other) {
-	if (!other._scheme.empty())   { view._scheme     = std::string_view(uri.data() + (other._scheme.data()     - other.view.data()), other._scheme.size()); }
-	if (!other._path.empty())     { view._path       = std::string_view(uri.data() + (other._path.data()       - other.view.data()), other._path.size()); }
-	if (!other._userinfo.empty()) { view._userinfo   = std::string_view(uri.data() + (other._userinfo.data()   - other.view.data()), other._userinfo.size()); }
-	if (!other._host.empty())     { view._host       = std::string_view(uri.data() + (other._host.data()       - other.view.data()), other._host.size()); }
-	if (!other._port.empty())     { view._port       = std::string_view(uri.data() + (other._port.data()       - other.view.data()), other._port.size()); }
-	if (!other._query.empty())    { view._query      = std::string_view(uri.data() + (other._query.data()      - other.view.data()), other._query.size()); }
-	if (!other._fragment.empty()) { view._fragment   = std::string_view(uri.data() + (other._fragment.data()   - other.view.data()), other._fragment.size()); }
+void fg::URI::decodeAndAdjustViews() {
+	// The components are separated before decoding, as encoded characters are never delimiters.
+	const auto encoded = URIView(uri);
+	std::string decoded = uri;
+	decodePercents(decoded);
+	if (decoded.size() == uri.size()) {
+		readjustViews(encoded);
+		return;
+	}
+
+	view = URIView();
+	view._valid = encoded._valid;
+	view.view = decoded;
+	for (const auto component : { &URIView::_scheme, &URIView::_path, &URIView::_userinfo, &URIView::_host, &URIView::_port, &URIView::_query, &URIView::_fragment }) {
+		const auto old = encoded.*component;
+		if (old.empty())
+			continue;
+		const auto begin = percentDecodedSize(encoded.view.substr(0, static_cast<std::size_t>(old.data() - encoded.view.data())));
+		view.*component = std::string_view(decoded).substr(begin, percentDecodedSize(old));
+	}
+	const auto decodedView = view;
+	uri = std::move(decoded);
+	readjustViews(decodedView);
+}
+
+void fg::URI::readjustViews(const URIView other) {
+	view = URIView();
+	view._valid = other._valid;
+	for (const auto component : { &URIView::_scheme, &URIView::_path, &URIView::_userinfo, &URIView::_host, &URIView::_port, &URIView::_query, &URIView::_fragment }) {
+		const auto old = other.*component;
+		if (!old.empty()) {
+			view.*component = std::string_view(uri.data() + (old.data() - other.view.data()), old.size());
+		}
+	}
 
 	view.view = uri;
 }
 
 void fg::URI::decodePercents(std::string& x) noexcept {
+	std::size_t end = 0;
 	for (std::size_t i = 0; i < x.size(); ++i) {
-		if (x[i] != '%')
+		const auto value = decodePercentEscape(x, i);
+		if (value < 0) {
+			// Not an escape sequence, keep it as is.
+			x[end++] = x[i];
 			continue;
-
-		// Read the next two chars and store them
-		std::array<char, 3> chars = {x[i + 1], x[i + 2]};
-		x[i] = static_cast<char>(std::strtoul(chars.data(), nullptr, 16));
-		x.erase(i + 1, 2);
+		}
+		x[end++] = static_cast<char>(value);
+		i += 2;
 	}
+	x.erase(end);
 }
 
 std::string_view fg::URI::string() const noexcept { return uri; }
diff --git a/src/io.cpp b/src/io.cpp
index 096ce95..362d488 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -436,7 +436,8 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromApk(const fs::path& path, s
 #endif
 
 fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri, std::size_t minimumLength) const {
-	URI decodedUri(uri.path()); // Re-allocate so we can decode potential characters.
+	std::string decodedPath(uri.path()); // Re-allocate so we can decode potential characters.
+	URI::decodePercents(decodedPath);
 	// JSON strings are always in UTF-8, so we can safely always use u8path here.
 	// Since u8path is deprecated with C++20 and newer, u8path is deprecated.
 	// As there is no other proper solution that doesn't do something illegal,
@@ -448,7 +449,7 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri, std::size
 #pragma warning(push)
 #pragma warning(disable : 4996)
 #endif
-	auto path = directory / fs::u8path(decodedUri.path());
+	auto path = directory / fs::u8path(decodedPath);
 #if defined(__GNUC__) || defined(__clang__)
 #pragma GCC diagnostic pop
 #elif defined(_MSC_VER)
-- 
2.43.0


From 9acdc76e859d1f77fdd79691a765e97c4bc1bdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:44 +0000
Subject: [PATCH 15/52] fix: scenes without nodes keep their place in the scene
 array

---
 src/fastgltf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index d510b60..0e92f7b 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3989,11 +3989,11 @@ fg::Error fg::Parser::parseScenes(const simdjson::dom::array& scenes, Asset& ass
 
                 scene.nodeIndices.emplace_back(static_cast<std::size_t>(index));
             }
-
-            asset.scenes.emplace_back(std::move(scene));
         } else if (nodeError != Error::MissingField) {
             return nodeError;
         }
+
+        asset.scenes.emplace_back(std::move(scene));
     }
 
 	return Error::None;
-- 
2.43.0


From 46b1bb7ae5e6f81b991b4921bcbc2b0fe86b3c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:40 +0000
Subject: [PATCH 16/52] fix: a texture info without texCoord does not inherit
 the previous texture's

---
 src/fastgltf.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 0e92f7b..12e37f1 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -323,6 +323,7 @@ namespace fastgltf {
 			return Error::InvalidGltf;
 		}
 
+		info->texCoordIndex = 0; // The info object might have been used for another texture before.
 		if (const auto error = child["texCoord"].get_uint64().get(index); error == SUCCESS) FASTGLTF_LIKELY {
 			info->texCoordIndex = static_cast<std::size_t>(index);
 		} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
-- 
2.43.0


From 0bc0a6bcc2bcdfcf5f8437a480f97e74429e6bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:40 +0000
Subject: [PATCH 17/52] fix: nodes with morph target weights load

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 12e37f1..7ae298d 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3696,7 +3696,7 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
 
         auto weightsError = getJsonArray(nodeObject, "weights", &array);
         if (weightsError != Error::MissingField) {
-            if (weightsError != Error::None) {
+            if (weightsError == Error::None) {
 	            node.weights = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(node.weights), resourceAllocator.get(), 0);
                 node.weights.reserve(array.size());
                 for (auto weightValue : array) {
-- 
2.43.0


From 0a5f92f1c01b6fd8dc20af05e037be8f34c4b000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:40 +0000
Subject: [PATCH 18/52] fix: a node with a matrix and extensions loads with
 KHR_lights_punctual enabled

---
 src/fastgltf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 7ae298d..e389a23 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3799,14 +3799,14 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
         if (nodeObject["extensions"].get_object().get(extensionsObject) == SUCCESS) FASTGLTF_LIKELY {
 			if (hasBit(config.extensions, Extensions::KHR_lights_punctual)) {
 				dom::object lightsObject;
-				if (extensionsObject[extensions::KHR_lights_punctual].get_object().get(lightsObject) == SUCCESS) FASTGLTF_LIKELY {
+				if (auto lightsError = extensionsObject[extensions::KHR_lights_punctual].get_object().get(lightsObject); lightsError == SUCCESS) FASTGLTF_LIKELY {
 					std::uint64_t light;
 					if (auto lightError = lightsObject["light"].get_uint64().get(light); lightError == SUCCESS) FASTGLTF_LIKELY {
 						node.lightIndex = static_cast<std::size_t>(light);
 					} else {
 						return lightError == NO_SUCH_FIELD || lightError == INCORRECT_TYPE ? Error::InvalidGltf : Error::InvalidJson;
 					}
-				} else if (error != NO_SUCH_FIELD) {
+				} else if (lightsError != NO_SUCH_FIELD) {
 					return Error::InvalidGltf;
 				}
 			}
-- 
2.43.0


From b9f8cfd53810b9aad52200fe2ff249ac3af311a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:40 +0000
Subject: [PATCH 19/52] fix: an invalid material extension fails the load
 instead of truncating the material

---
 src/fastgltf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index e389a23..65968fd 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3432,7 +3432,9 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 
         dom::object extensionsObject;
         if (auto extensionError = materialObject["extensions"].get_object().get(extensionsObject); extensionError == SUCCESS) {
-			parseMaterialExtensions(extensionsObject, material);
+			if (auto error = parseMaterialExtensions(extensionsObject, material); error != Error::None) {
+				return error;
+			}
         } else if (extensionError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
             return Error::InvalidJson;
         }
-- 
2.43.0


From 0f7f7eef2fb526c92e7e9102b28858bb1f04d3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:40 +0000
Subject: [PATCH 20/52] fix: a box shape of default size loads as a box

---
 src/fastgltf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 65968fd..38d2131 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4153,13 +4153,14 @@ fg::Error fg::Parser::parseShapes(const simdjson::dom::array& shapes, Asset& ass
 				return Error::InvalidGltf;
 		    }
 
+			auto& box = shape.emplace<BoxShape>();
+
 			dom::array sizeArray;
 			if (error = boxObject["size"].get_array().get(sizeArray); error == SUCCESS) {
 			    if (sizeArray.size() != 3) {
 					return Error::InvalidGltf;
 			    }
 
-				auto& box = shape.emplace<BoxShape>();
 				auto curIndex = 0;
 				for (auto sizeNum : sizeArray) {
 					double value;
-- 
2.43.0


From d0186a7935919f07af9e89989120687151d3b609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:40 +0000
Subject: [PATCH 21/52] fix: an empty asset version is rejected without reading
 past it

---
 src/fastgltf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 38d2131..f851500 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1532,6 +1532,9 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 			return Error::InvalidOrMissingAssetField;
 		}
 
+		if (version.empty()) FASTGLTF_UNLIKELY {
+			return Error::InvalidOrMissingAssetField;
+		}
 		const auto major = static_cast<std::uint32_t>(version.substr(0, 1)[0] - '0');
 		// std::uint32_t minor = version.substr(2, 3)[0] - '0';
 		if (major != 2U) {
-- 
2.43.0


From 4bbbb0240f4dbcc2491dc443c9365c4d772dfe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:40 +0000
Subject: [PATCH 22/52] fix: material variant mappings refer to existing
 variants only, in any key order

---
 include/fastgltf/core.hpp |  2 +-
 src/fastgltf.cpp          | 41 +++++++++++++++++----------------------
 2 files changed, 19 insertions(+), 24 deletions(-)

diff --git a/include/fastgltf/core.hpp b/include/fastgltf/core.hpp
index 334dcd7..2da7fea 100644
--- a/include/fastgltf/core.hpp
+++ b/include/fastgltf/core.hpp
@@ -862,7 +862,7 @@ namespace fastgltf {
 		Error parseLights(const simdjson::dom::array& array, Asset& asset);
 		Error parseMaterialExtensions(simdjson::dom::object& object, Material& material);
 		Error parseMaterials(simdjson::dom::array& array, Asset& asset);
-		Error parsePrimitiveExtensions(const simdjson::dom::object& object, Primitive& primitive);
+		Error parsePrimitiveExtensions(const simdjson::dom::object& object, Primitive& primitive, std::size_t variantCount);
 		Error parseMeshes(simdjson::dom::array& array, Asset& asset);
 		Error parseNodes(simdjson::dom::array& array, Asset& asset);
 		Error parseSamplers(const simdjson::dom::array& array, Asset& asset);
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index f851500..d45fbf0 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1582,6 +1582,15 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 		}
 	}
 
+	// The meshes refer to the material variants, so the extensions have to be parsed before anything else.
+	dom::object rootExtensions;
+	if (auto extensionsError = root["extensions"].get_object().get(rootExtensions); extensionsError == SUCCESS) FASTGLTF_LIKELY {
+		if (auto error = parseExtensions(rootExtensions, asset); error != Error::None)
+			return error;
+	} else if (extensionsError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+		return Error::InvalidGltf;
+	}
+
 	Category readCategories = Category::None;
 	for (const auto object : root) {
 		auto hashedKey = crcStringFunction(object.key);
@@ -1595,13 +1604,7 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 		}
 
 		if (hashedKey == force_consteval<crc32c("extensions")>) {
-			dom::object extensionsObject;
-			if (object.value.get_object().get(extensionsObject) != SUCCESS) FASTGLTF_UNLIKELY {
-				return Error::InvalidGltf;
-			}
-
-			if (auto error = parseExtensions(extensionsObject, asset); error != Error::None)
-				return error;
+			// These are already parsed before this section.
 			continue;
 		}
 
@@ -1669,18 +1672,6 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 		}
 	}
 
-	// Resize primitive mappings to match the global variant count
-	if (hasBit(config.extensions, Extensions::KHR_materials_variants) && !asset.materialVariants.empty()) {
-		const auto variantCount = asset.materialVariants.size();
-		for (auto& mesh : asset.meshes) {
-			for (auto& primitive : mesh.primitives) {
-				if (primitive.mappings.empty() || primitive.mappings.size() == variantCount)
-					continue;
-				primitive.mappings.resize(variantCount);
-			}
-		}
-	}
-
 	return asset;
 }
 
@@ -3457,7 +3448,7 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 	return Error::None;
 }
 
-fastgltf::Error fg::Parser::parsePrimitiveExtensions(const simdjson::dom::object& object, Primitive& primitive) {
+fastgltf::Error fg::Parser::parsePrimitiveExtensions(const simdjson::dom::object& object, Primitive& primitive, const std::size_t variantCount) {
 	using namespace simdjson;
 
 	for (auto extension : object) {
@@ -3497,8 +3488,12 @@ fastgltf::Error fg::Parser::parsePrimitiveExtensions(const simdjson::dom::object
 							return Error::InvalidGltf;
 						}
 
-						primitive.mappings.resize(max(primitive.mappings.size(),
-													  static_cast<std::size_t>(variantIndex + 1)));
+						// Every index has to refer to a variant of the asset.
+						if (variantIndex >= variantCount) FASTGLTF_UNLIKELY {
+							return Error::InvalidGltf;
+						}
+
+						primitive.mappings.resize(variantCount);
 						primitive.mappings[static_cast<std::size_t>(variantIndex)] = materialIndex;
 					}
 				}
@@ -3611,7 +3606,7 @@ fg::Error fg::Parser::parseMeshes(simdjson::dom::array& meshes, Asset& asset) {
 			if (hasBit(config.extensions, Extensions::KHR_materials_variants) || hasBit(config.extensions, Extensions::KHR_draco_mesh_compression)) {
 				dom::object extensionsObject;
 				if (auto error = primitiveObject["extensions"].get_object().get(extensionsObject); error == SUCCESS) {
-					if (auto extensionError = parsePrimitiveExtensions(extensionsObject, primitive); extensionError != Error::None)
+					if (auto extensionError = parsePrimitiveExtensions(extensionsObject, primitive, asset.materialVariants.size()); extensionError != Error::None)
 						return extensionError;
 				} else if (error != NO_SUCH_FIELD) {
 					return Error::InvalidGltf;
-- 
2.43.0


From 96d032169aef7dba1609d7bc37f7eec4dc292051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:40 +0000
Subject: [PATCH 23/52] fix: an unknown primitive mode is rejected

---
 src/fastgltf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index d45fbf0..3d73edf 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3586,6 +3586,9 @@ fg::Error fg::Parser::parseMeshes(simdjson::dom::array& meshes, Asset& asset) {
 
 			std::uint64_t value;
 			if (auto error = primitiveObject["mode"].get_uint64().get(value); error == SUCCESS) FASTGLTF_LIKELY {
+				if (value > static_cast<std::uint64_t>(PrimitiveType::TriangleFan)) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
+				}
 				primitive.type = static_cast<PrimitiveType>(value);
 			} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 				return Error::InvalidGltf;
-- 
2.43.0


From 50793d92aaec9b71cff033b154898071574020f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:40 +0000
Subject: [PATCH 24/52] fix: generated mesh indices enumerate the vertices for
 every topology and stay in bounds

---
 src/fastgltf.cpp | 93 ++++++++++++------------------------------------
 1 file changed, 22 insertions(+), 71 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 3d73edf..12be8aa 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -863,55 +863,25 @@ template fg::Error fg::Parser::parseAttributes(simdjson::dom::object&, FASTGLTF_
 template fg::Error fg::Parser::parseAttributes(simdjson::dom::object&, decltype(fastgltf::Primitive::attributes)&);
 
 namespace fastgltf {
-	template<typename T>
-	void writeIndices(PrimitiveType type, span<T> indices, std::size_t primitiveCount) {
-		// Generate the correct indices for every primitive topology
-		switch (type) {
-			case PrimitiveType::Points: {
-				for (std::size_t i = 0; i < primitiveCount; ++i)
-					indices[i] = static_cast<T>(i);
-				break;
-			}
-			case PrimitiveType::Lines:
-			case PrimitiveType::LineLoop:
-			case PrimitiveType::LineStrip: {
-				for (std::size_t i = 0; i < primitiveCount; ++i) {
-					indices[i * 2 + 0] = static_cast<T>(i * 2 + 0);
-					indices[i * 2 + 1] = static_cast<T>(i * 2 + 1);
-				}
-				break;
-			}
-			case PrimitiveType::Triangles:
-			case PrimitiveType::TriangleStrip:
-			case PrimitiveType::TriangleFan: {
-				for (std::size_t i = 0; i < primitiveCount; ++i) {
-					indices[i * 3 + 0] = static_cast<T>(i * 3 + 0);
-					indices[i * 3 + 1] = static_cast<T>(i * 3 + 1);
-					indices[i * 3 + 2] = static_cast<T>(i * 3 + 2);
-				}
-				break;
-			}
-			default: FASTGLTF_UNREACHABLE
+	template <typename T>
+	StaticVector<std::byte> writeIndices(const std::size_t vertexCount) {
+		StaticVector<std::byte> generatedIndices(vertexCount * sizeof(T));
+		for (std::size_t i = 0; i < vertexCount; ++i) {
+			const auto index = static_cast<T>(i);
+			std::memcpy(generatedIndices.data() + i * sizeof(T), &index, sizeof(T));
 		}
+		return generatedIndices;
 	}
 
-	std::pair<StaticVector<std::byte>, ComponentType> writeIndices(PrimitiveType type, std::size_t indexCount, std::size_t primitiveCount) {
-		if (indexCount < 255) {
-			StaticVector<std::byte> generatedIndices(indexCount * sizeof(std::uint8_t));
-			span<std::uint8_t> indices(reinterpret_cast<std::uint8_t*>(generatedIndices.data()), generatedIndices.size() / sizeof(std::uint8_t));
-			writeIndices(type, indices, primitiveCount);
-			return std::make_pair(generatedIndices, ComponentType::UnsignedByte);
-		} else if (indexCount < 65535) {
-			StaticVector<std::byte> generatedIndices(indexCount * sizeof(std::uint16_t));
-			span<std::uint16_t> indices(reinterpret_cast<std::uint16_t*>(generatedIndices.data()), generatedIndices.size() / sizeof(std::uint16_t));
-			writeIndices(type, indices, primitiveCount);
-			return std::make_pair(generatedIndices, ComponentType::UnsignedShort);
-		} else {
-			StaticVector<std::byte> generatedIndices(indexCount * sizeof(std::uint32_t));
-			span<std::uint32_t> indices(reinterpret_cast<std::uint32_t*>(generatedIndices.data()), generatedIndices.size() / sizeof(std::uint32_t));
-			writeIndices(type, indices, primitiveCount);
-			return std::make_pair(generatedIndices, ComponentType::UnsignedInt);
+	// A primitive without indices uses its vertices in order, whatever its topology.
+	std::pair<StaticVector<std::byte>, ComponentType> writeIndices(const std::size_t vertexCount) {
+		if (vertexCount < 255) {
+			return { writeIndices<std::uint8_t>(vertexCount), ComponentType::UnsignedByte };
+		}
+		if (vertexCount < 65535) {
+			return { writeIndices<std::uint16_t>(vertexCount), ComponentType::UnsignedShort };
 		}
+		return { writeIndices<std::uint32_t>(vertexCount), ComponentType::UnsignedInt };
 	}
 }
 
@@ -925,34 +895,15 @@ fg::Error fg::Parser::generateMeshIndices(fastgltf::Asset& asset) const {
 			if (positionAttribute == primitive.attributes.end()) {
 				return Error::InvalidGltf;
 			}
+			if (positionAttribute->accessorIndex >= asset.accessors.size()) {
+				return Error::InvalidGltf;
+			}
 			auto positionCount = asset.accessors[positionAttribute->accessorIndex].count;
+			if (positionCount > std::numeric_limits<std::uint32_t>::max()) {
+				return Error::InvalidGltf;
+			}
 
-			auto primitiveCount = [&]() -> std::size_t {
-				switch (primitive.type) {
-					case PrimitiveType::Points: return positionCount;
-					case PrimitiveType::Lines: return positionCount / 2;
-					case PrimitiveType::LineLoop:
-					case PrimitiveType::LineStrip: return max<std::size_t>(0, positionCount - 1);
-					case PrimitiveType::Triangles: return positionCount / 3;
-					case PrimitiveType::TriangleStrip: return max<std::size_t>(0U, positionCount - 2);
-					case PrimitiveType::TriangleFan: return max<std::size_t>(0U, positionCount - 2);
-					default: FASTGLTF_UNREACHABLE
-				}
-			}();
-			auto indexCount = [&]() -> std::size_t {
-				switch (primitive.type) {
-					case PrimitiveType::Points: return primitiveCount;
-					case PrimitiveType::Lines:
-					case PrimitiveType::LineLoop:
-					case PrimitiveType::LineStrip: return primitiveCount * 2;
-					case PrimitiveType::Triangles:
-					case PrimitiveType::TriangleStrip:
-					case PrimitiveType::TriangleFan: return primitiveCount * 3;
-					default: FASTGLTF_UNREACHABLE
-				}
-			}();
-
-			auto [generatedIndices, componentType] = writeIndices(primitive.type, indexCount, primitiveCount);
+			auto [generatedIndices, componentType] = writeIndices(positionCount);
 
 			auto bufferIdx = asset.buffers.size();
 			auto& buffer = asset.buffers.emplace_back();
-- 
2.43.0


From 9979e85c810cad6b2eb5b592ac81cf9232689592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:12 +0000
Subject: [PATCH 25/52] fix: validate() checks accessor, sampler and buffer
 view indices before using them

---
 src/fastgltf.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 12be8aa..c1a3c07 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1002,6 +1002,9 @@ fg::Error fg::validate(const Asset& asset) {
 		}
 
 		if (accessor.sparse) {
+			if (accessor.sparse->indicesBufferView >= asset.bufferViews.size() ||
+			    accessor.sparse->valuesBufferView >= asset.bufferViews.size())
+				return Error::InvalidGltf;
 			const auto& indicesView = asset.bufferViews[accessor.sparse->indicesBufferView];
 			if (indicesView.byteStride || indicesView.target)
 				return Error::InvalidGltf;
@@ -1029,8 +1032,12 @@ fg::Error fg::validate(const Asset& asset) {
 		if (animation.samplers.empty())
 			return Error::InvalidGltf;
 		for (const auto& channel : animation.channels) {
+			if (channel.samplerIndex >= animation.samplers.size())
+				return Error::InvalidGltf;
 			const auto& sampler = animation.samplers[channel.samplerIndex];
 
+			if (sampler.inputAccessor >= asset.accessors.size() || sampler.outputAccessor >= asset.accessors.size())
+				return Error::InvalidGltf;
 			const auto& inputAccessor = asset.accessors[sampler.inputAccessor];
 			// The accessor MUST be of scalar type with floating-point components
 			if (inputAccessor.type != AccessorType::Scalar)
-- 
2.43.0


From fab4324e1843c177f9f4c2b59406ba9b793d46f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 26/52] fix: every exported string is escaped, including
 control characters and adjacent quotes

---
 src/fastgltf.cpp | 53 +++++++++++++++++++++---------------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index c1a3c07..91a8a16 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5099,26 +5099,19 @@ void fg::prettyPrintJson(std::string& json) {
 
 namespace fastgltf {
 	static void escapeString(std::string& string) {
-		std::size_t i = 0;
-		do {
-			switch (string[i]) {
-				case '\"': {
-					constexpr std::string_view s = "\\\"";
-					string.replace(i, 1, s);
-					i += s.size();
-					break;
-				}
-				case '\\': {
-					constexpr std::string_view s = "\\\\";
-					string.replace(i, 1, s);
-					i += s.size();
-					break;
-				}
-				default:
-					break;
+		constexpr std::string_view hexDigits = "0123456789abcdef";
+		for (std::size_t i = 0; i < string.size(); ++i) {
+			const auto character = static_cast<unsigned char>(string[i]);
+			if (character == '"' || character == '\\') {
+				string.insert(i, 1, '\\');
+				++i;
+			} else if (character < 0x20) {
+				// Control characters are only allowed in their escaped form.
+				const char escaped[] = { '\\', 'u', '0', '0', hexDigits[character >> 4U], hexDigits[character & 0xFU] };
+				string.replace(i, 1, escaped, sizeof escaped);
+				i += sizeof escaped - 1;
 			}
-			++i;
-		} while (i < string.size());
+		}
 	}
 
 	/**
@@ -6105,7 +6098,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
                 {
                     json += R"("attributes":{)";
                     for (auto ita = itp->attributes.begin(); ita != itp->attributes.end(); ++ita) {
-                        json += '"' + std::string(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+                        json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
                         if (uabs(std::distance(itp->attributes.begin(), ita)) + 1 <itp->attributes.size())
                             json += ',';
                     }
@@ -6126,7 +6119,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
             		for (auto itt = itp->targets.begin(); itt != itp->targets.end(); ++itt) {
 						json += '{';
 						for (auto ita = itt->begin(); ita != itt->end(); ++ita) {
-							json += '"' + std::string(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+							json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
 							if (uabs(std::distance(itt->begin(), ita)) + 1 < itt->size())
 								json += ',';
 						}
@@ -6165,7 +6158,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
 					json += R"("bufferView":)" + std::to_string(itp->dracoCompression->bufferView) + ',';
 					json += R"("attributes":{)";
 					for (auto ita = itp->dracoCompression->attributes.begin(); ita != itp->dracoCompression->attributes.end(); ++ita) {
-						json += '"' + std::string(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+						json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
 						if (uabs(std::distance(itp->dracoCompression->attributes.begin(), ita)) + 1 < itp->dracoCompression->attributes.size())
 							json += ',';
 					}
@@ -6323,7 +6316,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 			if (!it->instancingAttributes.empty()) {
 				json += R"("EXT_mesh_gpu_instancing":{"attributes":{)";
 				for (auto ait = it->instancingAttributes.begin(); ait != it->instancingAttributes.end(); ++ait) {
-					json += '"' + std::string(ait->name) + "\":" + std::to_string(ait->accessorIndex);
+					json += '"' + fg::escapeString(ait->name) + "\":" + std::to_string(ait->accessorIndex);
 					if (uabs(std::distance(it->instancingAttributes.begin(), ait)) + 1 <
 						it->instancingAttributes.size())
 						json += ',';
@@ -6785,7 +6778,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			json += R"("collisionSystems":[)";
 			for (auto systemIt = filter.collisionSystems.begin(); systemIt != filter.collisionSystems.end(); ++systemIt) {
 				json += '"';
-				json += *systemIt;
+				json += fg::escapeString(*systemIt);
 				json += '"';
 
 				if (uabs(std::distance(filter.collisionSystems.begin(), systemIt)) + 1 < filter.collisionSystems.size()) {
@@ -6802,7 +6795,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			json += R"("collideWithSystems":[)";
 			for (auto systemIt = filter.collideWithSystems.begin(); systemIt != filter.collideWithSystems.end(); ++systemIt) {
 				json += '"';
-				json += *systemIt;
+				json += fg::escapeString(*systemIt);
 				json += '"';
 
 				if (uabs(std::distance(filter.collideWithSystems.begin(), systemIt)) + 1 < filter.collideWithSystems.size()) {
@@ -6819,7 +6812,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			json += R"("notCollideWithSystems":[)";
 			for (auto systemIt = filter.notCollideWithSystems.begin(); systemIt != filter.notCollideWithSystems.end(); ++systemIt) {
 				json += '"';
-				json += *systemIt;
+				json += fg::escapeString(*systemIt);
 				json += '"';
 
 				if (uabs(std::distance(filter.notCollideWithSystems.begin(), systemIt)) + 1 < filter.notCollideWithSystems.size()) {
@@ -7009,7 +7002,7 @@ void fg::Exporter::writeExtensions(const fastgltf::Asset& asset, std::string& js
 		for (const auto& variant : asset.materialVariants) {
 			if (json.back() == '}')
 				json += ',';
-			json += R"({"name":")" + variant + "\"}";
+			json += R"({"name":")" + fg::escapeString(variant) + "\"}";
 		}
 		json += "]}";
 	}
@@ -7068,7 +7061,7 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
             outputString += R"("copyright":")" + fg::escapeString(asset.assetInfo->copyright) + "\",";
         if (!asset.assetInfo->generator.empty())
             outputString += R"("generator":")" + fg::escapeString(asset.assetInfo->generator) + "\",";
-        outputString += R"("version":")" + asset.assetInfo->gltfVersion + '"';
+        outputString += R"("version":")" + fg::escapeString(asset.assetInfo->gltfVersion) + '"';
     } else {
         outputString += R"("generator":"fastgltf",)";
         outputString += R"("version":"2.0")";
@@ -7080,7 +7073,7 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
 		if (outputString.back() != '{') outputString += ',';
 		outputString += "\"extensionsUsed\":[";
 		for (auto it = asset.extensionsUsed.begin(); it != asset.extensionsUsed.end(); ++it) {
-			outputString += '\"' + *it + '\"';
+			outputString += '\"' + fg::escapeString(*it) + '\"';
 			if (uabs(std::distance(asset.extensionsUsed.begin(), it)) + 1 <asset.extensionsUsed.size())
 				outputString += ',';
 		}
@@ -7090,7 +7083,7 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
 		if (outputString.back() != '{') outputString += ',';
 		outputString += "\"extensionsRequired\":[";
 		for (auto it = asset.extensionsRequired.begin(); it != asset.extensionsRequired.end(); ++it) {
-			outputString += '\"' + *it + '\"';
+			outputString += '\"' + fg::escapeString(*it) + '\"';
 			if (uabs(std::distance(asset.extensionsRequired.begin(), it)) + 1 <asset.extensionsRequired.size())
 				outputString += ',';
 		}
-- 
2.43.0


From 1054e38bc8d940d220a1f24f7fb2e5650542d7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 27/52] fix: pretty-printing recognises strings that end in an
 escaped backslash

---
 src/fastgltf.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 91a8a16..ec84d0b 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5066,13 +5066,15 @@ void fg::prettyPrintJson(std::string& json) {
     while (i < json.size()) {
         if (json[i] == '"') {
             // Skip to the end of the string
-            do {
-                ++i;
-                if (json[i] == '"' && json[i - 1] != '\\') {
-                    break;
+            for (++i; i < json.size() && json[i] != '"'; ++i) {
+                if (json[i] == '\\') {
+                    ++i; // The next character is escaped
                 }
-            } while (true);
+            }
             ++i; // Skip over the last "
+            if (i >= json.size()) {
+                break;
+            }
         }
 
         switch (json[i]) {
-- 
2.43.0


From d3382e927c5f525660054571bd7e20b97567482d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 28/52] fix: an exporter does not report the error of an
 earlier export

---
 src/fastgltf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index ec84d0b..d930a4d 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7117,6 +7117,7 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
 }
 
 fg::Expected<fg::ExportResult<std::string>> fg::Exporter::writeGltfJson(const Asset& asset, ExportOptions _options) {
+    errorCode = Error::None;
     bufferPaths.clear();
     imagePaths.clear();
     options = _options;
@@ -7142,6 +7143,7 @@ fg::Expected<fg::ExportResult<std::string>> fg::Exporter::writeGltfJson(const As
 }
 
 fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBinary(const Asset& asset, ExportOptions _options) {
+    errorCode = Error::None;
     bufferPaths.clear();
     imagePaths.clear();
     options = _options;
-- 
2.43.0


From f2190071b7afae43361f17531251f2f4399d8062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 29/52] fix: writeGltfBinary honours
 ExportOptions::ValidateAsset

---
 src/fastgltf.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index d930a4d..1d00635 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7151,6 +7151,12 @@ fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBi
 
     options &= (~ExportOptions::PrettyPrintJson);
 
+    if (hasBit(options, ExportOptions::ValidateAsset)) {
+        if (const auto validation = validate(asset); validation != Error::None) {
+            return validation;
+        }
+    }
+
     ExportResult<std::vector<std::byte>> result;
     auto json = writeJson(asset);
     if (errorCode != Error::None) {
-- 
2.43.0


From b2afe79d29b91cde99f6410230b2da23f2a87fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 30/52] fix: exporting a GLB does not read past the end of the
 embedded buffer

---
 src/fastgltf.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 1d00635..6c936a8 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7172,6 +7172,20 @@ fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBi
 			&& (std::holds_alternative<sources::Array>(asset.buffers.front().data) || std::holds_alternative<sources::ByteView>(asset.buffers.front().data) || std::holds_alternative<sources::Vector>(asset.buffers.front().data))
 			&& asset.buffers.front().byteLength < std::numeric_limits<decltype(BinaryGltfChunk::chunkLength)>::max();
 
+    if (withEmbeddedBuffer) {
+        // The embedded buffer has to hold all the bytes it declares.
+        const auto& buffer = asset.buffers.front();
+        const auto availableBytes = std::visit(visitor {
+            [](auto&) -> std::size_t { return 0; },
+            [](const sources::Array& array) -> std::size_t { return array.bytes.size(); },
+            [](const sources::Vector& vector) -> std::size_t { return vector.bytes.size(); },
+            [](const sources::ByteView& view) -> std::size_t { return view.bytes.size(); },
+        }, buffer.data);
+        if (availableBytes < buffer.byteLength) {
+            return Error::InvalidGltf;
+        }
+    }
+
     std::size_t binarySize = 0;
     binarySize += sizeof(BinaryGltfHeader); // glTF header
     binarySize += sizeof(BinaryGltfChunk) + alignUp(json.size(), 4); // JSON chunk
-- 
2.43.0


From 9436bba0da72e764ced88b3c30254cb56b23c584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 31/52] fix: spot lights are exported as valid JSON

---
 src/fastgltf.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 6c936a8..ce54c96 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5681,11 +5681,15 @@ void fg::Exporter::writeLights(const Asset& asset, std::string& json) {
 		}
 
 		if (it->type == LightType::Spot) {
+			json += R"(,"spot":{)";
 			if (it->innerConeAngle.has_value())
-				json += R"("innerConeAngle":)" + to_string_fp(it->innerConeAngle.value()) + ',';
+				json += R"("innerConeAngle":)" + to_string_fp(it->innerConeAngle.value());
 
-			if (it->outerConeAngle.has_value())
-				json += R"("outerConeAngle":)" + to_string_fp(it->outerConeAngle.value()) + ',';
+			if (it->outerConeAngle.has_value()) {
+				if (json.back() != '{') json += ',';
+				json += R"("outerConeAngle":)" + to_string_fp(it->outerConeAngle.value());
+			}
+			json += '}';
 		}
 
 		if (!it->name.empty())
-- 
2.43.0


From bf03bdacbf8678b96feb9eb2bd55f3cf4ea47f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 32/52] fix: MSFT_packing_occlusionRoughnessMetallic textures
 are separated by commas on export

---
 src/fastgltf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index ce54c96..b3843aa 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6053,10 +6053,12 @@ void fg::Exporter::writeMaterials(const Asset& asset, std::string& json) {
 				writeTextureInfo(json, &it->packedOcclusionRoughnessMetallicTextures->occlusionRoughnessMetallicTexture.value());
 			}
 			if (it->packedOcclusionRoughnessMetallicTextures->roughnessMetallicOcclusionTexture.has_value()) {
+				if (json.back() != '{') json += ',';
 				json += R"("roughnessMetallicOcclusionTexture":)";
 				writeTextureInfo(json, &it->packedOcclusionRoughnessMetallicTextures->roughnessMetallicOcclusionTexture.value());
 			}
 			if (it->packedOcclusionRoughnessMetallicTextures->normalTexture.has_value()) {
+				if (json.back() != '{') json += ',';
 				json += R"("normalTexture":)";
 				writeTextureInfo(json, &it->packedOcclusionRoughnessMetallicTextures->normalTexture.value());
 			}
-- 
2.43.0


From eb10f3549972d4e8408160682d6c0119c1b6b34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 33/52] fix: collision filters are exported as valid JSON and
 ask for their own extras

---
 src/fastgltf.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index b3843aa..0062c39 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6795,11 +6795,8 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			}
 			json += ']';
 		}
-		if (json.back() == ']') {
-			json += ',';
-		}
-
 		if (!filter.collideWithSystems.empty()) {
+			if (json.back() != '{') json += ',';
 			json += R"("collideWithSystems":[)";
 			for (auto systemIt = filter.collideWithSystems.begin(); systemIt != filter.collideWithSystems.end(); ++systemIt) {
 				json += '"';
@@ -6812,11 +6809,8 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			}
 			json += ']';
 		}
-		if (json.back() == ']') {
-			json += ',';
-		}
-
 		if (!filter.notCollideWithSystems.empty()) {
+			if (json.back() != '{') json += ',';
 			json += R"("notCollideWithSystems":[)";
 			for (auto systemIt = filter.notCollideWithSystems.begin(); systemIt != filter.notCollideWithSystems.end(); ++systemIt) {
 				json += '"';
@@ -6831,7 +6825,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 		}
 
 		if (extrasWriteCallback != nullptr) {
-			auto extras = extrasWriteCallback(uabs(std::distance(asset.collisionFilters.begin(), it)), fastgltf::Category::Shapes, userPointer);
+			auto extras = extrasWriteCallback(uabs(std::distance(asset.collisionFilters.begin(), it)), fastgltf::Category::CollisionFilters, userPointer);
 			if (extras.has_value()) {
 				if (json.back() != '{') {
 					json += ',';
-- 
2.43.0


From e8211e3b2f7a88b26af52ca53b25f8c14d43a88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 34/52] fix: physics rigid bodies are exported as valid JSON
 under the keys the parser reads

---
 src/fastgltf.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 0062c39..3c0a29c 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5139,6 +5139,10 @@ namespace fastgltf {
 		return {std::begin(buffer), end};
 	}
 
+	static std::string to_string(const bool value) {
+		return value ? "true" : "false";
+	}
+
     std::string to_string(const math::fvec2 value) {
 		return to_string_fp(value[0]) + ',' + to_string_fp(value[1]);
 	}
@@ -6339,23 +6343,23 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 #if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
 			if (it->physicsRigidBody) {
 				if (json.back() != '{') json += ',';
-				json += R"("KHR_physics_rigid_body":{)";
+				json += R"("KHR_physics_rigid_bodies":{)";
 				if (it->physicsRigidBody->motion.has_value()) {
 					const auto& motion = *it->physicsRigidBody->motion;
-					json += R"("motion":{"isKinematic":)" + std::to_string(motion.isKinematic);
+					json += R"("motion":{"isKinematic":)" + to_string(motion.isKinematic);
 					if (motion.mass.has_value()) {
 						json += R"(,"mass":)" + to_string_fp(*motion.mass);
 					}
 					json += R"(,"centerOfMass":[)" + to_string(motion.centerOfMass) + ']';
 					if (motion.inertialDiagonal.has_value()) {
-						json += R"(,"inertialDiagonal":[)" + to_string(*motion.inertialDiagonal) + ']';
+						json += R"(,"inertiaDiagonal":[)" + to_string(*motion.inertialDiagonal) + ']';
 					}
 					if (motion.inertialOrientation.has_value()) {
 						json += R"(,"inertialOrientation":[)" + to_string(*motion.inertialOrientation) + ']';
 					}
-					json += R"(,"linearVelocity":)" + to_string(motion.linearVelocity)
+					json += R"(,"linearVelocity":[)" + to_string(motion.linearVelocity)
 				        + R"(],"angularVelocity":[)" + to_string(motion.angularVelocity)
-				        + R"(],"gravityFactor":[)" + to_string_fp(motion.gravityFactor) + '}';
+				        + R"(],"gravityFactor":)" + to_string_fp(motion.gravityFactor) + '}';
 				}
 
 				if (it->physicsRigidBody->trigger.has_value()) {
@@ -6367,10 +6371,11 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 							json += R"("geometry":{)";
 							if (geometry.geometry.shape.has_value()) {
 								json += R"("shape":)" + std::to_string(*geometry.geometry.shape) + ',';
-							} else if(geometry.geometry.node.has_value()) {
+							}
+							if (geometry.geometry.node.has_value()) {
 								json += R"("node":)" + std::to_string(*geometry.geometry.node) + ',';
 							}
-							json += R"("convexHull":)" + std::to_string(geometry.geometry.convexHull) + '}';
+							json += R"("convexHull":)" + to_string(geometry.geometry.convexHull) + '}';
 
 							if (geometry.collisionFilter.has_value()) {
 								json += R"(,"collisionFilter":)" + std::to_string(*geometry.collisionFilter);
@@ -6394,7 +6399,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 					const auto& joint = *it->physicsRigidBody->joint;
 					json += R"("joint":{"connectedNode":)" + std::to_string(joint.connectedNode)
 				        + R"(,"joint":)" + std::to_string(joint.joint)
-				        + R"(,"enableCollision":)" + std::to_string(joint.enableCollision) + '}';
+				        + R"(,"enableCollision":)" + to_string(joint.enableCollision) + '}';
 				}
 
 				if (it->physicsRigidBody->collider.has_value()) {
@@ -6405,10 +6410,11 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 					json += R"("geometry":{)";
 					if (collider.geometry.shape.has_value()) {
 						json += R"("shape":)" + std::to_string(*collider.geometry.shape) + ',';
-					} else if (collider.geometry.node.has_value()) {
+					}
+					if (collider.geometry.node.has_value()) {
 						json += R"("node":)" + std::to_string(*collider.geometry.node) + ',';
 					}
-					json += R"("convexHull":)" + std::to_string(collider.geometry.convexHull) + '}';
+					json += R"("convexHull":)" + to_string(collider.geometry.convexHull) + '}';
 
 					if (collider.physicsMaterial.has_value()) {
 						json += R"(,"physicsMaterial":)" + std::to_string(*collider.physicsMaterial);
@@ -6418,6 +6424,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 					}
 					json += '}';
 				}
+				json += '}';
 			}
 #endif
 
-- 
2.43.0


From 7c79891402ec5e74692f4e196125ef07c99b7a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 35/52] fix: a motion's inertia orientation uses the key
 KHR_physics_rigid_bodies defines

---
 src/fastgltf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 3c0a29c..5616601 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4624,7 +4624,7 @@ fg::Error fg::Parser::parsePhysicsRigidBody(simdjson::dom::object& khr_physics_r
 		}
 
 		dom::array inertialOrientationArray;
-		if (error = motionObject["inertialOrientation"].get_array().get(inertialOrientationArray); error == SUCCESS) {
+		if (error = motionObject["inertiaOrientation"].get_array().get(inertialOrientationArray); error == SUCCESS) {
 			if (inertialOrientationArray.size() != 4) FASTGLTF_UNLIKELY {
 				return Error::InvalidGltf;
 			}
@@ -6355,7 +6355,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 						json += R"(,"inertiaDiagonal":[)" + to_string(*motion.inertialDiagonal) + ']';
 					}
 					if (motion.inertialOrientation.has_value()) {
-						json += R"(,"inertialOrientation":[)" + to_string(*motion.inertialOrientation) + ']';
+						json += R"(,"inertiaOrientation":[)" + to_string(*motion.inertialOrientation) + ']';
 					}
 					json += R"(,"linearVelocity":[)" + to_string(motion.linearVelocity)
 				        + R"(],"angularVelocity":[)" + to_string(motion.angularVelocity)
-- 
2.43.0


From 0a74c0dc0f8e49812f3215e239ba5527b59b6609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 36/52] fix: exporting material variant mappings stays inside
 the primitive's mappings

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 5616601..8788e6e 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6153,7 +6153,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
 				if (!itp->mappings.empty()) {
 					json += R"("KHR_materials_variants":{"mappings":[)";
 					// TODO: We should optimise to avoid writing multiple objects for the same material index
-					for (std::size_t i = 0; i < asset.materialVariants.size(); ++i) {
+					for (std::size_t i = 0; i < itp->mappings.size(); ++i) {
 						if (!itp->mappings[i].has_value())
 							continue;
 						if (json.back() == '}')
-- 
2.43.0


From 8e675d3833fd1f06ee33e4acaca62da6f4971ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 37/52] fix: exported URIs are percent-encoded again, so that
 they name the same file when loaded

---
 src/fastgltf.cpp | 62 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 58 insertions(+), 4 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 8788e6e..33c5156 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5116,12 +5116,66 @@ namespace fastgltf {
 		}
 	}
 
+	/**
+	 * Appends a character to an URI component and percent-encodes it, unless RFC 3986 allows it everywhere, it
+	 * is part of allowed, or it belongs to a UTF-8 sequence.
+	 */
+	static void appendEncoded(std::string& component, const char character, const std::string_view allowed) {
+		constexpr std::string_view hexDigits = "0123456789ABCDEF";
+		constexpr std::string_view unencoded = "-._~!$&'()*+,;=";
+		const auto value = static_cast<unsigned char>(character);
+		if (value >= 0x80 || (value >= '0' && value <= '9') || (value >= 'A' && value <= 'Z') || (value >= 'a' && value <= 'z')
+			|| unencoded.find(character) != std::string_view::npos || allowed.find(character) != std::string_view::npos) {
+			component += character;
+			return;
+		}
+		component += '%';
+		component += hexDigits[value >> 4U];
+		component += hexDigits[value & 0xFU];
+	}
+
 	/**
 	 * Normalizes the path using lexically_normal, calls generic_string to always use forward slashes,
-	 * and escapes any necessary characters.
+	 * and encodes and escapes any necessary characters.
 	 */
 	static std::string normalizeAndFormatPath(const fs::path& path) {
-		auto string = path.lexically_normal().generic_string();
+		std::string string;
+		for (const auto character : path.lexically_normal().generic_string()) {
+			appendEncoded(string, character, "/");
+		}
+		escapeString(string);
+		return string;
+	}
+
+	/**
+	 * Formats an URI for JSON. The URI class holds its components decoded, so that all characters that
+	 * would otherwise be taken for a delimiter or an escape sequence are encoded again.
+	 */
+	static std::string formatUri(const URI& uri) {
+		if (uri.isDataUri()) {
+			return escapeString(uri.string());
+		}
+
+		const auto decoded = uri.string();
+		auto contains = [](const std::string_view component, const char* position) {
+			const std::less<const char*> less;
+			return !component.empty() && !less(position, component.data()) && less(position, component.data() + component.size());
+		};
+		std::string string;
+		for (const auto& character : decoded) {
+			if (contains(uri.path(), &character)) {
+				// Without a scheme a colon in the path would end one.
+				appendEncoded(string, character, uri.scheme().empty() ? "/@" : "/@:");
+			} else if (contains(uri.query(), &character) || contains(uri.fragment(), &character)) {
+				appendEncoded(string, character, "/@:?");
+			} else if (contains(uri.userinfo(), &character)) {
+				appendEncoded(string, character, ":");
+			} else if (contains(uri.host(), &character)) {
+				appendEncoded(string, character, ":[]");
+			} else {
+				string += character; // Delimiters, the scheme, and the port
+			}
+		}
 		escapeString(string);
 		return string;
 	}
@@ -5427,7 +5481,7 @@ void fg::Exporter::writeBuffers(const Asset& asset, std::string& json) {
                 bufferPaths.emplace_back(path);
 			},
 			[&](const sources::URI& uri) {
-				json += std::string(R"("uri":")") + fg::escapeString(uri.uri.string()) + '"' + ',';
+				json += std::string(R"("uri":")") + fg::formatUri(uri.uri) + '"' + ',';
                 bufferPaths.emplace_back(std::nullopt);
 			},
 			[&]([[maybe_unused]] const sources::Fallback& fallback) {
@@ -5621,7 +5675,7 @@ void fg::Exporter::writeImages(const Asset& asset, std::string& json) {
 				imagePaths.emplace_back(path);
 			},
 			[&](const sources::URI& uri) {
-				json += std::string(R"("uri":")") + fg::escapeString(uri.uri.string()) + '"';
+				json += std::string(R"("uri":")") + fg::formatUri(uri.uri) + '"';
                 imagePaths.emplace_back(std::nullopt);
 			},
 		}, it->data);
-- 
2.43.0


From 0c559f579a02827a0eeb7de78d48d00bcd7e0875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 38/52] fix: the MIME type of images survives an export

---
 src/fastgltf.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 33c5156..7afa819 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5676,6 +5676,9 @@ void fg::Exporter::writeImages(const Asset& asset, std::string& json) {
 			},
 			[&](const sources::URI& uri) {
 				json += std::string(R"("uri":")") + fg::formatUri(uri.uri) + '"';
+				if (uri.mimeType != MimeType::None) {
+					json += std::string(R"(,"mimeType":")") + std::string(getMimeTypeString(uri.mimeType)) + '"';
+				}
                 imagePaths.emplace_back(std::nullopt);
 			},
 		}, it->data);
@@ -7096,6 +7099,9 @@ fs::path fg::Exporter::getImageFilePath(const Asset& asset, std::size_t index, M
 		case MimeType::DDS:
 			extension = ".dds";
 			break;
+		case MimeType::WEBP:
+			extension = ".webp";
+			break;
 		default:
 		case MimeType::None:
 		case MimeType::GltfBuffer:
-- 
2.43.0


From ac44c97ffb687d4346d1f1bc0077ec5e83276e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 39/52] fix: a mesh without primitives is exported with the
 array the parser requires

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 7afa819..3b11184 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6158,7 +6158,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
 	for (auto it = asset.meshes.begin(); it != asset.meshes.end(); ++it) {
 		json += '{';
 
-        if (!it->primitives.empty()) {
+        {
             json += R"("primitives":[)";
             auto itp = it->primitives.begin();
             while (itp != it->primitives.end()) {
-- 
2.43.0


From 33453bcef1745c67c1a878620a877fee63dcdd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:21 +0000
Subject: [PATCH 40/52] fix: a texture with nothing but a name is exported as
 valid JSON

---
 src/fastgltf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 3b11184..2427f82 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6700,8 +6700,10 @@ void fg::Exporter::writeTextures(const Asset& asset, std::string& json) {
 			}
 		}
 
-		if (!it->name.empty())
-			json += R"(,"name":")" + fg::escapeString(it->name) + '"';
+		if (!it->name.empty()) {
+			if (json.back() != '{') json += ',';
+			json += R"("name":")" + fg::escapeString(it->name) + '"';
+		}
 		json += '}';
 		if (uabs(std::distance(asset.textures.begin(), it)) + 1 <asset.textures.size())
 			json += ',';
-- 
2.43.0


From db8e6d10a7cddec659c4eb4902229c07603f4d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:55 +0000
Subject: [PATCH 41/52] fix: exported buffers and images stay inside their
 folder and never share a file

---
 include/fastgltf/core.hpp |  7 +++++
 src/fastgltf.cpp          | 64 ++++++++++++++++++++++++++++++++++++---
 2 files changed, 67 insertions(+), 4 deletions(-)

diff --git a/include/fastgltf/core.hpp b/include/fastgltf/core.hpp
index 2da7fea..0b39d11 100644
--- a/include/fastgltf/core.hpp
+++ b/include/fastgltf/core.hpp
@@ -31,6 +31,7 @@
 #include <fstream>
 #include <memory>
 #include <tuple>
+#include <unordered_set>
 #endif
 
 #include <fastgltf/types.hpp>
@@ -988,6 +989,10 @@ namespace fastgltf {
         std::vector<std::optional<std::filesystem::path>> bufferPaths;
         std::vector<std::optional<std::filesystem::path>> imagePaths;
 
+        // The file the asset is written to, if any, and all files that are already in use by the current export.
+        std::filesystem::path targetFile;
+        std::unordered_set<std::string> usedFiles;
+
         void writeAccessors(const Asset& asset, std::string& json);
         void writeAnimations(const Asset& asset, std::string& json);
         void writeBuffers(const Asset& asset, std::string& json);
@@ -1012,6 +1017,8 @@ namespace fastgltf {
 #endif
         void writeExtensions(const Asset& asset, std::string& json);
 
+        bool useFilePath(const std::filesystem::path& path);
+        std::filesystem::path getUniqueFilePath(const std::filesystem::path& folder, std::string name, std::string_view extension, std::size_t index);
         std::filesystem::path getBufferFilePath(const Asset& asset, std::size_t index);
         std::filesystem::path getImageFilePath(const Asset& asset, std::size_t index, MimeType mimeType);
 
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 2427f82..1423b29 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7078,12 +7078,35 @@ void fg::Exporter::writeExtensions(const fastgltf::Asset& asset, std::string& js
     json += '}';
 }
 
+bool fg::Exporter::useFilePath(const fs::path& path) {
+    return usedFiles.emplace((targetFile.parent_path() / path).lexically_normal().generic_string()).second;
+}
+
+fs::path fg::Exporter::getUniqueFilePath(const fs::path& folder, std::string name, const std::string_view extension, const std::size_t index) {
+    // Names are arbitrary strings. The file has to stay inside of the folder and be its own file.
+    for (auto& character : name) {
+        if (static_cast<unsigned char>(character) < 0x20 || character == '\\') {
+            character = '_';
+        }
+    }
+    const fs::path relative(name + std::string(extension));
+    if (relative.has_root_path() || std::find(relative.begin(), relative.end(), fs::path("..")) != relative.end()) {
+        std::replace(name.begin(), name.end(), '/', '_');
+    }
+
+    auto path = folder / (name + std::string(extension));
+    for (auto suffix = index; !useFilePath(path); ++suffix) {
+        path = folder / (name + '_' + std::to_string(suffix) + std::string(extension));
+    }
+    return path;
+}
+
 fs::path fg::Exporter::getBufferFilePath(const Asset& asset, std::size_t index) {
     const auto& bufferName = asset.buffers[index].name;
     if (bufferName.empty()) {
-        return bufferFolder / ("buffer" + std::to_string(index) + ".bin");
+        return getUniqueFilePath(bufferFolder, "buffer" + std::to_string(index), ".bin", index);
     }
-	return bufferFolder / (bufferName + ".bin");
+	return getUniqueFilePath(bufferFolder, std::string(bufferName), ".bin", index);
 }
 
 fs::path fg::Exporter::getImageFilePath(const Asset& asset, std::size_t index, MimeType mimeType) {
@@ -7114,12 +7137,29 @@ fs::path fg::Exporter::getImageFilePath(const Asset& asset, std::size_t index, M
 
     const auto& imageName = asset.images[index].name;
 	if (imageName.empty()) {
-		return imageFolder / ("image" + std::to_string(index) + std::string(extension));
+		return getUniqueFilePath(imageFolder, "image" + std::to_string(index), extension, index);
 	}
-	return imageFolder / (std::string(imageName) + std::string(extension));
+	return getUniqueFilePath(imageFolder, std::string(imageName), extension, index);
 }
 
 std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
+    // Files that are only referenced by the asset, and the asset's own file, must not be overwritten.
+    usedFiles.clear();
+    if (!targetFile.empty()) {
+        useFilePath(targetFile.filename());
+    }
+    auto useReferencedFile = [&](const DataSource& source) {
+        if (const auto* uri = std::get_if<sources::URI>(&source); uri != nullptr && uri->uri.isLocalPath()) {
+            useFilePath(uri->uri.fspath());
+        }
+    };
+    for (const auto& buffer : asset.buffers) {
+        useReferencedFile(buffer.data);
+    }
+    for (const auto& image : asset.images) {
+        useReferencedFile(image.data);
+    }
+
     // Fairly rudimentary approach of just composing the JSON string using a std::string.
     std::string outputString;
 
@@ -7185,7 +7225,19 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
     return outputString;
 }
 
+namespace fastgltf {
+	struct TargetFileReset {
+		fs::path& targetFile;
+
+		~TargetFileReset() {
+			targetFile.clear();
+		}
+	};
+} // namespace fastgltf
+
 fg::Expected<fg::ExportResult<std::string>> fg::Exporter::writeGltfJson(const Asset& asset, ExportOptions _options) {
+    // Only this export is written to the target file, if there is one.
+    const TargetFileReset targetFileReset { targetFile };
     errorCode = Error::None;
     bufferPaths.clear();
     imagePaths.clear();
@@ -7212,6 +7264,8 @@ fg::Expected<fg::ExportResult<std::string>> fg::Exporter::writeGltfJson(const As
 }
 
 fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBinary(const Asset& asset, ExportOptions _options) {
+    // Only this export is written to the target file, if there is one.
+    const TargetFileReset targetFileReset { targetFile };
     errorCode = Error::None;
     bufferPaths.clear();
     imagePaths.clear();
@@ -7404,6 +7458,7 @@ fg::Error fg::FileExporter::writeGltfJson(const Asset& asset, const fs::path& ta
 		}
 	}
 
+	targetFile = target;
 	auto expected = Exporter::writeGltfJson(asset, _options);
 
     if (!expected) {
@@ -7433,6 +7488,7 @@ fg::Error fg::FileExporter::writeGltfBinary(const Asset& asset, const fs::path&
 		}
 	}
 
+	targetFile = target;
     auto expected = Exporter::writeGltfBinary(asset, _options);
 
     if (!expected) {
-- 
2.43.0


From 0ee5ef4010d354f95071d96a7f3bad08f33cc5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:55 +0000
Subject: [PATCH 42/52] fix: a file export creates all folders, writes its
 target last, and reports every failed write

---
 src/fastgltf.cpp | 113 ++++++++++++++++++++---------------------------
 1 file changed, 48 insertions(+), 65 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 1423b29..167f378 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7384,47 +7384,46 @@ fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBi
 }
 
 namespace fastgltf {
-	bool writeFile(const DataSource& dataSource, const fs::path& baseFolder, const fs::path& filePath) {
-		// Get the final normalized path. TODO: Perhaps move these filesystem checks to the parent function?
-		auto finalPath = (baseFolder / filePath).lexically_normal();
-		if (std::error_code ec; !fs::exists(finalPath.parent_path(), ec) || ec) {
+	bool createParentFolder(const fs::path& path) {
+		const auto folder = path.parent_path();
+		if (std::error_code ec; !folder.empty() && (!fs::exists(folder, ec) || ec)) {
 			// If the parent folder of the destination file does not exist, we'll create it.
-			fs::create_directory(finalPath.parent_path(), ec);
+			fs::create_directories(folder, ec);
 			if (ec) {
 				return false;
 			}
 		}
+		return true;
+	}
+
+	bool writeBytes(const void* data, const std::size_t size, const fs::path& path) {
+		std::ofstream file(path, std::ios::out | std::ios::binary);
+		if (!file.is_open())
+			return false;
+		file.write(static_cast<const char*>(data), static_cast<std::streamsize>(size));
+		file.close();
+		return file.good();
+	}
+
+	bool writeFile(const DataSource& dataSource, const fs::path& baseFolder, const fs::path& filePath) {
+		// Get the final normalized path. TODO: Perhaps move these filesystem checks to the parent function?
+		auto finalPath = (baseFolder / filePath).lexically_normal();
+		if (!createParentFolder(finalPath)) {
+			return false;
+		}
 
 		return std::visit(visitor {
 			[](auto&) {
 				return false;
 			},
 			[&](const sources::Array& vector) {
-				std::ofstream file(finalPath, std::ios::out | std::ios::binary);
-				if (!file.is_open())
-					return false;
-				file.write(reinterpret_cast<const char *>(vector.bytes.data()),
-						   static_cast<std::streamsize>(vector.bytes.size()));
-				file.close();
-				return file.good();
+				return writeBytes(vector.bytes.data(), vector.bytes.size(), finalPath);
 			},
 			[&](const sources::Vector& vector) {
-				std::ofstream file(finalPath, std::ios::out | std::ios::binary);
-				if (!file.is_open())
-					return false;
-				file.write(reinterpret_cast<const char *>(vector.bytes.data()),
-						   static_cast<std::streamsize>(vector.bytes.size()));
-				file.close();
-				return file.good();
+				return writeBytes(vector.bytes.data(), vector.bytes.size(), finalPath);
 			},
 			[&](const sources::ByteView& view) {
-				std::ofstream file(finalPath, std::ios::out | std::ios::binary);
-				if (!file.is_open())
-					return false;
-				file.write(reinterpret_cast<const char *>(view.bytes.data()),
-						   static_cast<std::streamsize>(view.bytes.size()));
-				file.close();
-				return file.good();
+				return writeBytes(view.bytes.data(), view.bytes.size(), finalPath);
 			},
 		}, dataSource);
 	}
@@ -7451,63 +7450,47 @@ namespace fastgltf {
 } // namespace fastgltf
 
 fg::Error fg::FileExporter::writeGltfJson(const Asset& asset, const fs::path& target, const ExportOptions _options) {
-	if (std::error_code ec; !fs::exists(target.parent_path(), ec) || ec) {
-		fs::create_directory(target.parent_path(), ec);
-		if (ec) {
-			return Error::InvalidPath;
-		}
+	if (!createParentFolder(target)) {
+		return Error::InvalidPath;
 	}
 
 	targetFile = target;
 	auto expected = Exporter::writeGltfJson(asset, _options);
+	if (!expected) {
+		return expected.error();
+	}
+	auto& result = expected.get();
 
-    if (!expected) {
-        return expected.error();
-    }
-    auto& result = expected.get();
-
-    std::ofstream file(target, std::ios::out);
-    if (!file.is_open()) {
-        return fg::Error::InvalidPath;
-    }
-
-    file << result.output;
-    file.close();
-
+	// The target is written last, so that it never refers to files that have not been written completely.
 	if (!writeFiles(asset, result, target.parent_path())) {
 		return Error::FailedWritingFiles;
 	}
-    return Error::None;
+	if (!writeBytes(result.output.data(), result.output.size(), target)) {
+		return Error::FailedWritingFiles;
+	}
+	return Error::None;
 }
 
 fg::Error fg::FileExporter::writeGltfBinary(const Asset& asset, const fs::path& target, const ExportOptions _options) {
-	if (std::error_code ec; !fs::exists(target.parent_path(), ec) || ec) {
-		fs::create_directory(target.parent_path(), ec);
-		if (ec) {
-			return Error::InvalidPath;
-		}
+	if (!createParentFolder(target)) {
+		return Error::InvalidPath;
 	}
 
 	targetFile = target;
-    auto expected = Exporter::writeGltfBinary(asset, _options);
-
-    if (!expected) {
-        return expected.error();
-    }
-    auto& result = expected.get();
-
-    std::ofstream file(target, std::ios::out | std::ios::binary);
-    if (!file.is_open()) {
-        return Error::InvalidPath;
-    }
-
-    file.write(reinterpret_cast<const char*>(result.output.data()),
-               static_cast<std::streamsize>(result.output.size()));
+	auto expected = Exporter::writeGltfBinary(asset, _options);
+	if (!expected) {
+		return expected.error();
+	}
+	auto& result = expected.get();
 
+	// The target is written last, so that it never refers to files that have not been written completely.
 	if (!writeFiles(asset, result, target.parent_path())) {
 		return Error::FailedWritingFiles;
 	}
-    return Error::None;
+	if (!writeBytes(result.output.data(), result.output.size(), target)) {
+		return Error::FailedWritingFiles;
+	}
+	return Error::None;
 }
 #pragma endregion
 
-- 
2.43.0


From b21510ae186539f69be9b96f5851e69adfb77305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:26 +0000
Subject: [PATCH 43/52] fix: a parser can be used again after an allocation
 failure while parsing JSON

---
 src/fastgltf.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 167f378..a72f9de 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4924,6 +4924,9 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfJson(GltfDataGetter& data, fs::path
 									  totalSize + SIMDJSON_PADDING);
 	dom::object root;
     if (auto error = jsonParser->parse(view).get(root); error != SUCCESS) FASTGLTF_UNLIKELY {
+	    // simdjson's parser can't be used again after it ran out of memory, as it may be left half allocated.
+	    if (error == MEMALLOC)
+	        *jsonParser = dom::parser();
 	    return Error::InvalidJson;
     }
 
@@ -4979,7 +4982,10 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
                                                jsonChunk.chunkLength + SIMDJSON_PADDING);
 
 	simdjson::dom::object root;
-    if (jsonParser->parse(jsonChunkView).get(root) != SUCCESS) FASTGLTF_UNLIKELY {
+    if (auto error = jsonParser->parse(jsonChunkView).get(root); error != SUCCESS) FASTGLTF_UNLIKELY {
+	    // simdjson's parser can't be used again after it ran out of memory, as it may be left half allocated.
+	    if (error == MEMALLOC)
+	        *jsonParser = dom::parser();
 	    return Error::InvalidJson;
     }
 
-- 
2.43.0


From f6f6eeeae94167c939cae9ec1790c1a944b23864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 44/52] fix: don't take a colon in the path, query, or fragment
 of an URI for the end of a scheme

---
 src/fastgltf.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index a72f9de..0f9728a 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -429,8 +429,9 @@ void fg::URIView::parse() {
 	}
 
 	std::size_t idx = 0;
-	auto firstColon = view.find(':');
-	if (firstColon != std::string::npos) {
+	// A colon behind the beginning of the path, the query, or the fragment doesn't end a scheme.
+	auto firstColon = view.find_first_of(":/?#");
+	if (firstColon != std::string::npos && view[firstColon] == ':') {
 		// URI has a scheme.
 		if (firstColon == 0) {
 			// Empty scheme is invalid
-- 
2.43.0


From 125817dd70d9f4f29bef58643c6eb753e76c7488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 45/52] fix: unknown members of the root object may hold
 anything

---
 src/fastgltf.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 0f9728a..40c020a 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1571,12 +1571,13 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 			continue;
 		}
 
+		// Members that are not known may hold anything.
 		dom::array array;
-		if (object.value.get_array().get(array) != SUCCESS) FASTGLTF_UNLIKELY {
-			return Error::InvalidGltf;
-		}
+		const auto arrayError = object.value.get_array().get(array);
 
 #define KEY_SWITCH_CASE(name, id) case force_consteval<crc32c(FASTGLTF_QUOTE(id))>:       \
+                if (arrayError != SUCCESS) FASTGLTF_UNLIKELY      \
+                    return Error::InvalidGltf;            \
                 if (hasBit(categories, Category::name))   \
                     error = parse##name(array, asset);                     \
                 readCategories |= Category::name;         \
@@ -1598,6 +1599,8 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 			KEY_SWITCH_CASE(Skins, skins)
 			KEY_SWITCH_CASE(Textures, textures)
 			case force_consteval<crc32c("extensionsUsed")>: {
+				if (arrayError != SUCCESS) FASTGLTF_UNLIKELY
+					return Error::InvalidGltf;
 				for (auto usedValue : array) {
 					std::string_view usedString;
 					if (auto eError = usedValue.get_string().get(usedString); eError == SUCCESS) FASTGLTF_LIKELY {
@@ -1610,6 +1613,8 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 				break;
 			}
 			case force_consteval<crc32c("extensionsRequired")>: {
+				if (arrayError != SUCCESS) FASTGLTF_UNLIKELY
+					return Error::InvalidGltf;
 				// These are already parsed before this section.
 				break;
 			}
-- 
2.43.0


From a0142f67f5a14eebf991a0bd11ece57bc197d9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 46/52] fix: don't hand out the binary chunk twice when a file
 has two buffers arrays

---
 src/fastgltf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 40c020a..742980e 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -2049,7 +2049,8 @@ fg::Error fg::Parser::parseBuffers(simdjson::dom::array& buffers, Asset& asset)
             if (glbBufferLength < buffer.byteLength) {
                 return Error::InvalidGltf;
             }
-            buffer.data = std::move(glbBuffer);
+            // The chunk belongs to this buffer now.
+            buffer.data = std::exchange(glbBuffer, std::monostate {});
         } else if (meshoptCompressionRequired) {
 			// This buffer is not a GLB buffer and has no URI source and is therefore a fallback.
 			buffer.data = sources::Fallback();
-- 
2.43.0


From 691c162cbe9b803457bf32981d8f58c64546a9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 47/52] fix: a static vector that was moved from is empty

---
 include/fastgltf/types.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 191ee6c..80db632 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -632,12 +632,14 @@ namespace fastgltf {
 
         StaticVector(StaticVector&& other) noexcept {
             _array = std::move(other._array);
-            _size = other.size();
+            _size = std::exchange(other._size, 0);
         }
 
 		StaticVector& operator=(StaticVector&& other) noexcept {
-			_array = std::move(other._array);
-			_size = other.size();
+			if (this != &other) {
+				_array = std::move(other._array);
+				_size = std::exchange(other._size, 0);
+			}
 			return *this;
 		}
 
-- 
2.43.0


From 7aec8903d9e1e7b69dcb041f8dea8218506f7354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:47 +0000
Subject: [PATCH 48/52] fix: validate every reference between objects

---
 src/fastgltf.cpp | 77 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 75 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 742980e..810a01f 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1032,13 +1032,18 @@ fg::Error fg::validate(const Asset& asset) {
 
 		if (animation.samplers.empty())
 			return Error::InvalidGltf;
+		for (const auto& sampler : animation.samplers) {
+			if (sampler.inputAccessor >= asset.accessors.size() || sampler.outputAccessor >= asset.accessors.size())
+				return Error::InvalidGltf;
+		}
 		for (const auto& channel : animation.channels) {
+			// An asset of which only the animations were loaded has no nodes.
+			if (channel.nodeIndex.has_value() && !asset.nodes.empty() && *channel.nodeIndex >= asset.nodes.size())
+				return Error::InvalidGltf;
 			if (channel.samplerIndex >= animation.samplers.size())
 				return Error::InvalidGltf;
 			const auto& sampler = animation.samplers[channel.samplerIndex];
 
-			if (sampler.inputAccessor >= asset.accessors.size() || sampler.outputAccessor >= asset.accessors.size())
-				return Error::InvalidGltf;
 			const auto& inputAccessor = asset.accessors[sampler.inputAccessor];
 			// The accessor MUST be of scalar type with floating-point components
 			if (inputAccessor.type != AccessorType::Scalar)
@@ -1092,6 +1097,8 @@ fg::Error fg::validate(const Asset& asset) {
 
 		if (bufferView.meshoptCompression) {
 			const auto& compression = bufferView.meshoptCompression;
+			if (compression->bufferIndex >= asset.buffers.size())
+				return Error::InvalidGltf;
 			switch (compression->mode) {
 				case MeshoptCompressionMode::Attributes:
 					if (compression->byteStride % 4 != 0 || compression->byteStride > 256)
@@ -1159,6 +1166,9 @@ fg::Error fg::validate(const Asset& asset) {
 		auto isInvalidTexture = [&textures = asset.textures](std::optional<std::size_t> textureIndex) {
 			return textureIndex.has_value() && textureIndex.value() >= textures.size();
 		};
+		auto isInvalidTextureInfo = [&textures = asset.textures](const auto& texture) {
+			return texture.has_value() && texture->textureIndex >= textures.size();
+		};
 		if (material.normalTexture.has_value() && isInvalidTexture(material.normalTexture->textureIndex))
 			return Error::InvalidGltf;
 		if (material.emissiveTexture.has_value() && isInvalidTexture(material.emissiveTexture->textureIndex))
@@ -1172,6 +1182,41 @@ fg::Error fg::validate(const Asset& asset) {
 		    isInvalidTexture(material.pbrData.metallicRoughnessTexture->textureIndex))
 			return Error::InvalidGltf;
 
+		if (material.anisotropy && isInvalidTextureInfo(material.anisotropy->anisotropyTexture))
+			return Error::InvalidGltf;
+		if (material.clearcoat && (isInvalidTextureInfo(material.clearcoat->clearcoatTexture) ||
+		    isInvalidTextureInfo(material.clearcoat->clearcoatRoughnessTexture) ||
+		    isInvalidTextureInfo(material.clearcoat->clearcoatNormalTexture)))
+			return Error::InvalidGltf;
+		if (material.diffuseTransmission && (isInvalidTextureInfo(material.diffuseTransmission->diffuseTransmissionTexture) ||
+		    isInvalidTextureInfo(material.diffuseTransmission->diffuseTransmissionColorTexture)))
+			return Error::InvalidGltf;
+		if (material.iridescence && (isInvalidTextureInfo(material.iridescence->iridescenceTexture) ||
+		    isInvalidTextureInfo(material.iridescence->iridescenceThicknessTexture)))
+			return Error::InvalidGltf;
+		if (material.sheen && (isInvalidTextureInfo(material.sheen->sheenColorTexture) ||
+		    isInvalidTextureInfo(material.sheen->sheenRoughnessTexture)))
+			return Error::InvalidGltf;
+		if (material.specular && (isInvalidTextureInfo(material.specular->specularTexture) ||
+		    isInvalidTextureInfo(material.specular->specularColorTexture)))
+			return Error::InvalidGltf;
+		if (material.specularGlossiness && (isInvalidTextureInfo(material.specularGlossiness->diffuseTexture) ||
+		    isInvalidTextureInfo(material.specularGlossiness->specularGlossinessTexture)))
+			return Error::InvalidGltf;
+		if (material.transmission && isInvalidTextureInfo(material.transmission->transmissionTexture))
+			return Error::InvalidGltf;
+		if (material.volume && isInvalidTextureInfo(material.volume->thicknessTexture))
+			return Error::InvalidGltf;
+		if (isInvalidTextureInfo(material.packedNormalMetallicRoughnessTexture))
+			return Error::InvalidGltf;
+		if (material.packedOcclusionRoughnessMetallicTextures) {
+			const auto& packed = *material.packedOcclusionRoughnessMetallicTextures;
+			if (isInvalidTextureInfo(packed.occlusionRoughnessMetallicTexture) ||
+			    isInvalidTextureInfo(packed.roughnessMetallicOcclusionTexture) ||
+			    isInvalidTextureInfo(packed.normalTexture))
+				return Error::InvalidGltf;
+		}
+
 		// Validate that for every additional material field from an extension the correct extension is marked as used by the asset.
 		if (material.anisotropy && !isExtensionUsed(extensions::KHR_materials_anisotropy))
 			return Error::InvalidGltf;
@@ -1231,6 +1276,16 @@ fg::Error fg::validate(const Asset& asset) {
 				}
 			}
 
+			for (const auto& target : primitive.targets) {
+				for (const auto& attribute : target) {
+					if (attribute.accessorIndex >= asset.accessors.size())
+						return Error::InvalidGltf;
+				}
+			}
+
+			if (primitive.dracoCompression && primitive.dracoCompression->bufferView >= asset.bufferViews.size())
+				return Error::InvalidGltf;
+
 			for (const auto& [name, index] : primitive.attributes) {
 				if (asset.accessors.size() <= index)
 					return Error::InvalidGltf;
@@ -1340,6 +1395,16 @@ fg::Error fg::validate(const Asset& asset) {
 			return Error::InvalidGltf;
 		if (node.meshIndex.has_value() && asset.meshes.size() <= node.meshIndex.value())
 			return Error::InvalidGltf;
+		if (node.lightIndex.has_value() && asset.lights.size() <= node.lightIndex.value())
+			return Error::InvalidGltf;
+		for (const auto& child : node.children) {
+			if (child >= asset.nodes.size())
+				return Error::InvalidGltf;
+		}
+		for (const auto& attribute : node.instancingAttributes) {
+			if (attribute.accessorIndex >= asset.accessors.size())
+				return Error::InvalidGltf;
+		}
 
 		if (const auto* pTRS = std::get_if<TRS>(&node.transform)) {
 			if (pTRS->rotation.x() > 1.0 || pTRS->rotation.x() < -1.0)
@@ -1384,6 +1449,10 @@ fg::Error fg::validate(const Asset& asset) {
 		}
 	}
 
+	// An asset of which the scenes were not loaded still has the index of its default scene.
+	if (asset.defaultScene.has_value() && !asset.scenes.empty() && *asset.defaultScene >= asset.scenes.size())
+		return Error::InvalidGltf;
+
 	for (const auto& scene : asset.scenes) {
 		for (const auto& node : scene.nodeIndices) {
 			if (node >= asset.nodes.size())
@@ -1394,6 +1463,10 @@ fg::Error fg::validate(const Asset& asset) {
 	for (const auto& skin : asset.skins) {
 		if (skin.joints.empty())
 			return Error::InvalidGltf;
+		for (const auto& joint : skin.joints) {
+			if (joint >= asset.nodes.size())
+				return Error::InvalidGltf;
+		}
 		if (skin.skeleton.has_value() && skin.skeleton.value() >= asset.nodes.size())
 			return Error::InvalidGltf;
 		if (skin.inverseBindMatrices.has_value() && skin.inverseBindMatrices.value() >= asset.accessors.size())
-- 
2.43.0


From 2aa27fc6ea9c36ce4f287304d2a444b5e0ac7827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 49/52] fix: validate the references of the rigid body
 extension

---
 src/fastgltf.cpp | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 810a01f..70dff68 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1443,6 +1443,48 @@ fg::Error fg::validate(const Asset& asset) {
 		}
 	}
 
+#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
+	auto isInvalidIndex = [](const auto& index, const auto& objects) {
+		return index.has_value() && *index >= objects.size();
+	};
+	auto isInvalidGeometry = [&](const Geometry& geometry) {
+#if FASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES
+		if (isInvalidIndex(geometry.shape, asset.shapes))
+			return true;
+#endif
+		return isInvalidIndex(geometry.node, asset.nodes);
+	};
+	for (const auto& node : asset.nodes) {
+		if (!node.physicsRigidBody)
+			continue;
+		const auto& body = *node.physicsRigidBody;
+
+		if (body.collider.has_value()) {
+			if (isInvalidGeometry(body.collider->geometry) ||
+			    isInvalidIndex(body.collider->physicsMaterial, asset.physicsMaterials) ||
+			    isInvalidIndex(body.collider->collisionFilter, asset.collisionFilters))
+				return Error::InvalidGltf;
+		}
+
+		if (body.trigger.has_value()) {
+			if (const auto* pGeometryTrigger = std::get_if<GeometryTrigger>(&*body.trigger)) {
+				if (isInvalidGeometry(pGeometryTrigger->geometry) ||
+				    isInvalidIndex(pGeometryTrigger->collisionFilter, asset.collisionFilters))
+					return Error::InvalidGltf;
+			} else if (const auto* pNodeTrigger = std::get_if<NodeTrigger>(&*body.trigger)) {
+				for (const auto& triggerNode : pNodeTrigger->nodes) {
+					if (triggerNode >= asset.nodes.size())
+						return Error::InvalidGltf;
+				}
+			}
+		}
+
+		if (body.joint.has_value() &&
+		    (body.joint->connectedNode >= asset.nodes.size() || body.joint->joint >= asset.physicsJoints.size()))
+			return Error::InvalidGltf;
+	}
+#endif
+
 	for (const auto& sampler : asset.samplers) {
 		if (sampler.magFilter.has_value() && (sampler.magFilter != Filter::Nearest && sampler.magFilter != Filter::Linear)) {
 			return Error::InvalidGltf;
-- 
2.43.0


From a76e1f8e8d0f0cd82e59017fc423190a7113c490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 50/52] fix: validate that accessors and buffer views lie
 within their data

---
 src/fastgltf.cpp | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 70dff68..1929aa7 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -955,6 +955,16 @@ fg::Error fg::validate(const Asset& asset) {
 			return Error::InvalidGltf;
 	}
 
+	auto isInRange = [](std::size_t offset, std::size_t length, std::size_t size) {
+		return offset <= size && length <= size - offset;
+	};
+	// Whether the elements, which are stride bytes apart, lie within the buffer view.
+	auto isInBufferView = [&](const BufferView& bufferView, std::size_t offset, std::size_t count, std::size_t stride, std::size_t elementSize) {
+		if (stride == 0 || count == 0 || !isInRange(offset, elementSize, bufferView.byteLength))
+			return false;
+		return count - 1 <= (bufferView.byteLength - offset - elementSize) / stride;
+	};
+
 	for (const auto& accessor : asset.accessors) {
 		if (accessor.type == AccessorType::Invalid)
 			return Error::InvalidGltf;
@@ -984,6 +994,14 @@ fg::Error fg::validate(const Asset& asset) {
 			}
 		}
 
+		const std::size_t elementSize = getElementByteSize(accessor.type, accessor.componentType);
+		if (accessor.bufferViewIndex.has_value()) {
+			const auto& bufferView = asset.bufferViews[*accessor.bufferViewIndex];
+			if (!isInBufferView(bufferView, accessor.byteOffset, accessor.count,
+			                    bufferView.byteStride.value_or(elementSize), elementSize))
+				return Error::InvalidGltf;
+		}
+
 		if (accessor.max.has_value()) {
 			if ((accessor.componentType == ComponentType::Float || accessor.componentType == ComponentType::Double)
 				&& !accessor.max->isType<double>())
@@ -1013,6 +1031,17 @@ fg::Error fg::validate(const Asset& asset) {
 			const auto& valueView = asset.bufferViews[accessor.sparse->valuesBufferView];
 			if (valueView.byteStride || valueView.target)
 				return Error::InvalidGltf;
+
+			const auto& sparse = *accessor.sparse;
+			if (sparse.indexComponentType != ComponentType::UnsignedByte &&
+			    sparse.indexComponentType != ComponentType::UnsignedShort &&
+			    sparse.indexComponentType != ComponentType::UnsignedInt)
+				return Error::InvalidGltf;
+			const std::size_t indexSize = getComponentByteSize(sparse.indexComponentType);
+			if (sparse.count > accessor.count ||
+			    !isInBufferView(indicesView, sparse.indicesByteOffset, sparse.count, indexSize, indexSize) ||
+			    !isInBufferView(valueView, sparse.valuesByteOffset, sparse.count, elementSize, elementSize))
+				return Error::InvalidGltf;
 		}
 	}
 
@@ -1082,6 +1111,15 @@ fg::Error fg::validate(const Asset& asset) {
 	for (const auto& buffer : asset.buffers) {
 		if (buffer.byteLength < 1)
 			return Error::InvalidGltf;
+
+		const auto holdsEnough = std::visit(visitor {
+			[](const auto&) { return true; },
+			[&](const sources::Array& array) { return array.bytes.size_bytes() >= buffer.byteLength; },
+			[&](const sources::Vector& vector) { return vector.bytes.size() >= buffer.byteLength; },
+			[&](const sources::ByteView& view) { return view.bytes.size() >= buffer.byteLength; },
+		}, buffer.data);
+		if (!holdsEnough)
+			return Error::InvalidGltf;
 	}
 
 	for (const auto& bufferView : asset.bufferViews) {
@@ -1091,6 +1129,8 @@ fg::Error fg::validate(const Asset& asset) {
 			return Error::InvalidGltf;
 		if (bufferView.bufferIndex >= asset.buffers.size())
 			return Error::InvalidGltf;
+		if (!isInRange(bufferView.byteOffset, bufferView.byteLength, asset.buffers[bufferView.bufferIndex].byteLength))
+			return Error::InvalidGltf;
 
 		if (bufferView.meshoptCompression != nullptr && !isExtensionUsed(extensions::EXT_meshopt_compression))
 			return Error::InvalidGltf;
@@ -1099,6 +1139,8 @@ fg::Error fg::validate(const Asset& asset) {
 			const auto& compression = bufferView.meshoptCompression;
 			if (compression->bufferIndex >= asset.buffers.size())
 				return Error::InvalidGltf;
+			if (!isInRange(compression->byteOffset, compression->byteLength, asset.buffers[compression->bufferIndex].byteLength))
+				return Error::InvalidGltf;
 			switch (compression->mode) {
 				case MeshoptCompressionMode::Attributes:
 					if (compression->byteStride % 4 != 0 || compression->byteStride > 256)
-- 
2.43.0


From 1f5921128ac4dea17944bdbe0e9b36bd2a58b0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:06 +0000
Subject: [PATCH 51/52] fix: validate that the nodes form strict trees

---
 src/fastgltf.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 1929aa7..0e2c625 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1533,6 +1533,29 @@ fg::Error fg::validate(const Asset& asset) {
 		}
 	}
 
+	// The node hierarchy MUST be a set of disjoint strict trees. That is the case if every node has at most
+	// one parent and can be reached from a root node.
+	std::vector<bool> isChild(asset.nodes.size(), false);
+	for (const auto& node : asset.nodes) {
+		for (const auto& child : node.children) {
+			if (isChild[child])
+				return Error::InvalidGltf;
+			isChild[child] = true;
+		}
+	}
+	std::vector<std::size_t> reachableNodes;
+	reachableNodes.reserve(asset.nodes.size());
+	for (std::size_t i = 0; i < asset.nodes.size(); ++i) {
+		if (!isChild[i])
+			reachableNodes.emplace_back(i);
+	}
+	for (std::size_t i = 0; i < reachableNodes.size(); ++i) {
+		for (const auto& child : asset.nodes[reachableNodes[i]].children)
+			reachableNodes.emplace_back(child);
+	}
+	if (reachableNodes.size() != asset.nodes.size())
+		return Error::InvalidGltf;
+
 	// An asset of which the scenes were not loaded still has the index of its default scene.
 	if (asset.defaultScene.has_value() && !asset.scenes.empty() && *asset.defaultScene >= asset.scenes.size())
 		return Error::InvalidGltf;
-- 
2.43.0


From d8c7b5d96f7bc752b0211e46fe131edf9beff893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 52/52] fix: use the size of the destination's elements when
 copying from an accessor without a buffer view

---
 include/fastgltf/tools.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 32fcd8c..647f9a1 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -806,11 +806,12 @@ void copyFromAccessor(const Asset& asset, const Accessor& accessor, void* dest,
 	// property or extensions MAY override zeros with actual values.
 	if (!accessor.bufferViewIndex) {
 		if constexpr (std::is_trivially_copyable_v<ElementType>) {
-			if (TargetStride == elemSize) {
-				std::memset(dest, 0, elemSize * accessor.count);
+			// The elements have the size of the destination type, no matter what components the accessor has.
+			if (TargetStride == sizeof(ElementType)) {
+				std::memset(dest, 0, sizeof(ElementType) * accessor.count);
 			} else {
 				for (std::size_t i = 0; i < accessor.count; ++i) {
-					std::memset(dstBytes + i * TargetStride, 0, elemSize);
+					std::memset(dstBytes + i * TargetStride, 0, sizeof(ElementType));
 				}
 			}
 		} else {
-- 
2.43.0

