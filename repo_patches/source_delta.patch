From 90676f1da4364cbf9884af38bbaedce9708a8210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 01/31] fix: do not read past the end of the decoded bytes in
 Buffer

---
 src/utils/Buffer.cpp | 48 ++++++++++++++++++++++++++------------------
 src/utils/Buffer.h   |  2 ++
 2 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/utils/Buffer.cpp b/src/utils/Buffer.cpp
index 0e3ed2a..893f50a 100644
--- a/src/utils/Buffer.cpp
+++ b/src/utils/Buffer.cpp
@@ -18,6 +18,13 @@ namespace utils {
 	Buffer::Buffer() : _buffer(0), _position{0} {
 	}
 
+	uint8_t Buffer::nextByte() {
+		// Past the end there is nothing to read, but the position still moves, so that isValid() reports it
+		const uint8_t byte = _position < _buffer.size() ? _buffer[_position] : 0;
+		_position++;
+		return byte;
+	}
+
 	Buffer &Buffer::operator<<(uint8_t val) {
 		_buffer.push_back(val);
 		return *this;
@@ -25,7 +32,7 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint8_t &val) {
-		val = _buffer[_position++];
+		val = nextByte();
 		return *this;
 
 	}
@@ -37,7 +44,7 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(int8_t &val) {
-		val = static_cast<uint8_t>(_buffer[_position++]);
+		val = static_cast<uint8_t>(nextByte());
 		return *this;
 	}
 
@@ -48,8 +55,8 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint16_t &val) {
-		val = static_cast<uint16_t>(_buffer[_position++]);
-		val += static_cast<uint16_t>(_buffer[_position++] << 8);
+		val = static_cast<uint16_t>(nextByte());
+		val += static_cast<uint16_t>(nextByte() << 8);
 		return *this;
 	}
 
@@ -71,10 +78,10 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint32_t &val) {
-		val = static_cast<uint32_t>(_buffer[_position++]);
-		val += static_cast<uint32_t>(_buffer[_position++] << 8);
-		val += static_cast<uint32_t>(_buffer[_position++] << 16);
-		val += static_cast<uint32_t>(_buffer[_position++] << 24);
+		val = static_cast<uint32_t>(nextByte());
+		val += static_cast<uint32_t>(nextByte() << 8);
+		val += static_cast<uint32_t>(nextByte() << 16);
+		val += static_cast<uint32_t>(nextByte() << 24);
 
 		return *this;
 	}
@@ -101,14 +108,14 @@ namespace utils {
 	}
 
 	Buffer &Buffer::operator>>(uint64_t &val) {
-		val = static_cast<uint64_t>(_buffer[_position++]);
-		val += static_cast<uint64_t>(_buffer[_position++]) << 8;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 16;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 24;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 32;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 40;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 48;
-		val += static_cast<uint64_t>(_buffer[_position++]) << 56;
+		val = static_cast<uint64_t>(nextByte());
+		val += static_cast<uint64_t>(nextByte()) << 8;
+		val += static_cast<uint64_t>(nextByte()) << 16;
+		val += static_cast<uint64_t>(nextByte()) << 24;
+		val += static_cast<uint64_t>(nextByte()) << 32;
+		val += static_cast<uint64_t>(nextByte()) << 40;
+		val += static_cast<uint64_t>(nextByte()) << 48;
+		val += static_cast<uint64_t>(nextByte()) << 56;
 
 		return *this;
 	}
@@ -143,8 +150,9 @@ Buffer &Buffer::operator<<(float val) {
 	}
 
 	Buffer &Buffer::operator>>(std::vector<uint8_t> &val) {
-		std::copy(_buffer.begin() + _position, _buffer.begin() + _position + val.size(), val.begin());
-		_position += val.size();
+		for (auto& v : val) {
+			v = nextByte();
+		}
 		return *this;
 	}
 
@@ -159,8 +167,8 @@ Buffer &Buffer::operator<<(float val) {
 
 	Buffer &Buffer::operator>>(std::vector<uint16_t> &val) {
 		for (auto& v : val) {
-			v = static_cast<int16_t>(_buffer[_position++]);
-			v += static_cast<int16_t>(_buffer[_position++] << 8);
+			v = static_cast<int16_t>(nextByte());
+			v += static_cast<int16_t>(nextByte() << 8);
 		}
 
 		return *this;
diff --git a/src/utils/Buffer.h b/src/utils/Buffer.h
index 32c1409..f340d7c 100644
--- a/src/utils/Buffer.h
+++ b/src/utils/Buffer.h
@@ -114,6 +114,8 @@ namespace utils {
 		bool isValid() const { return _position <= _buffer.size(); }
 		bool empty() const  { return  _position >= _buffer.size(); }
 	private:
+		uint8_t nextByte();
+
 		std::vector<uint8_t> _buffer;
 		size_t _position;
 	};
-- 
2.43.0


From e7b91a13ae1a67144d0dde8600b55370ddbfd782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 02/31] fix: initialise the length of a default constructed CIP
 string

---
 src/cip/CipString.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cip/CipString.h b/src/cip/CipString.h
index 1cdc713..2c76fc4 100644
--- a/src/cip/CipString.h
+++ b/src/cip/CipString.h
@@ -42,7 +42,7 @@ namespace cip {
 		}
 
 	private:
-		T _length;
+		T _length = 0;
 		std::vector<uint8_t> _data;
 	};
 
-- 
2.43.0


From 504ade7923437c1060f5123ed4b560acf6cef51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 03/31] fix: throw on an incomplete identity reply

---
 src/IdentityObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IdentityObject.cpp b/src/IdentityObject.cpp
index 0e771c9..5e11fea 100644
--- a/src/IdentityObject.cpp
+++ b/src/IdentityObject.cpp
@@ -48,7 +48,7 @@ namespace eipScanner {
 				>> _productName;
 
 			if (!buffer.isValid()) {
-				std::runtime_error("Not enough data in the response");
+				throw std::runtime_error("Not enough data in the response");
 			}
 
 		} else {
-- 
2.43.0


From a91636324e0efd5f88bb1dc512d13df8a79d13a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 04/31] fix: throw on incomplete parameter replies

---
 src/ParameterObject.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/ParameterObject.cpp b/src/ParameterObject.cpp
index adc702b..0569d3d 100644
--- a/src/ParameterObject.cpp
+++ b/src/ParameterObject.cpp
@@ -93,6 +93,9 @@ namespace eipScanner {
 			CipUsint dataSize;
 			Buffer buffer(response.getData());
 			buffer >> dataSize;
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
 
 			_value.resize(dataSize);
 			_minValue.resize(dataSize);
@@ -157,17 +160,21 @@ namespace eipScanner {
 							throw std::runtime_error("Failed to read value of attribute=" + std::to_string(attrId));
 						}
 
-						data.insert(data.end(), response.getData().begin(), response.getData().end());
+						if (response.getData().size() < sizeof(CipUint)) {
+							throw std::runtime_error("Not enough data in the response");
+						}
+
+						data.insert(data.end(), response.getData().begin(), response.getData().begin() + sizeof(CipUint));
 					}
 
-					buffer = Buffer(data);
-					buffer >> _scalingMultiplier >> _scalingDivisor
+					Buffer scalingBuffer(data);
+					scalingBuffer >> _scalingMultiplier >> _scalingDivisor
 						>> _scalingBase >> _scalingOffset;
 				}
 			}
 
 			if (!buffer.isValid()) {
-				std::runtime_error("Not enough data in the response");
+				throw std::runtime_error("Not enough data in the response");
 			}
 
 			Logger(LogLevel::DEBUG) << "Read Parameter Object"
@@ -189,7 +196,13 @@ namespace eipScanner {
 
 		if (response.getGeneralStatusCode() == GeneralStatusCodes::SUCCESS) {
 			Buffer buffer(response.getData());
-			buffer >> _value;
+			std::vector<uint8_t> value(_value.size());
+			buffer >> value;
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
+
+			_value = value;
 		} else {
 			cip::logGeneralAndAdditionalStatus(response);
 			throw std::runtime_error("Failed to read value");
-- 
2.43.0


From 12b495cde110928aa7176bf60abf3226dc17a391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 05/31] fix: throw on incomplete file object replies

---
 src/fileObject/FileObjectLoadedState.cpp           |  4 ++++
 src/fileObject/FileObjectState.cpp                 |  3 +++
 src/fileObject/FileObjectUploadInProgressState.cpp | 14 ++++++++++++++
 3 files changed, 21 insertions(+)

diff --git a/src/fileObject/FileObjectLoadedState.cpp b/src/fileObject/FileObjectLoadedState.cpp
index f078943..3055990 100644
--- a/src/fileObject/FileObjectLoadedState.cpp
+++ b/src/fileObject/FileObjectLoadedState.cpp
@@ -31,6 +31,10 @@ namespace fileObject {
 			cip::CipUsint transferSize = 0;
 
 			buffer >> fileSize >> transferSize;
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
+
 			setState<FileObjectUploadInProgressState>(fileSize, transferSize, handler);
 
 		} else {
diff --git a/src/fileObject/FileObjectState.cpp b/src/fileObject/FileObjectState.cpp
index 84d4bc2..394b847 100644
--- a/src/fileObject/FileObjectState.cpp
+++ b/src/fileObject/FileObjectState.cpp
@@ -63,6 +63,9 @@ namespace fileObject {
 			Buffer buffer(response.getData());
 			cip::CipUsint stateCode;
 			buffer >> stateCode;
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
 
 			switch (static_cast<FileObjectStateCodes>(stateCode)) {
 				case FileObjectStateCodes::NONEXISTENT:
diff --git a/src/fileObject/FileObjectUploadInProgressState.cpp b/src/fileObject/FileObjectUploadInProgressState.cpp
index 0054a26..ee7103e 100644
--- a/src/fileObject/FileObjectUploadInProgressState.cpp
+++ b/src/fileObject/FileObjectUploadInProgressState.cpp
@@ -51,6 +51,10 @@ namespace fileObject {
 					"Receive transfer packet type=" + std::to_string(
 							static_cast<cip::CipUsint>(transferPacketType)));
 
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the transfer packet");
+			}
+
 			if (transferNumber != _transferNumber) {
 				logWithStateName(LogLevel::ERROR, "Wrong transfer number");
 				_handler(cip::GeneralStatusCodes::INVALID_PARAMETER, std::vector<uint8_t>());
@@ -61,6 +65,9 @@ namespace fileObject {
 				case TransferPacketTypeCodes::FIRST: {
 					std::vector<uint8_t> fileData(_transferSize);
 					buffer >> fileData;
+					if (!buffer.isValid()) {
+						throw std::runtime_error("Not enough data in the transfer packet");
+					}
 
 					_fileContent.insert(_fileContent.end(), fileData.begin(), fileData.end());
 					break;
@@ -68,12 +75,19 @@ namespace fileObject {
 				case TransferPacketTypeCodes::MIDDLE: {
 					std::vector<uint8_t> fileData(_transferSize);
 					buffer >> fileData;
+					if (!buffer.isValid()) {
+						throw std::runtime_error("Not enough data in the transfer packet");
+					}
 
 					_fileContent.insert(_fileContent.end(), fileData.begin(), fileData.end());
 					break;
 				}
 				case TransferPacketTypeCodes::LAST:
 				case TransferPacketTypeCodes::FIRST_AND_LAST: {
+					if (response.getData().size() < 4) {
+						throw std::runtime_error("Not enough data in the transfer packet");
+					}
+
 					std::vector<uint8_t> fileData(response.getData().size() - 4);	//TODO: Check CRC
 					buffer >> fileData;
 
-- 
2.43.0


From 8218e9ecc41faecbfb6a717da69717a9c0965f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 06/31] fix: stop the upload after an error status

---
 src/fileObject/FileObjectUploadInProgressState.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fileObject/FileObjectUploadInProgressState.cpp b/src/fileObject/FileObjectUploadInProgressState.cpp
index ee7103e..4dd03e4 100644
--- a/src/fileObject/FileObjectUploadInProgressState.cpp
+++ b/src/fileObject/FileObjectUploadInProgressState.cpp
@@ -108,6 +108,7 @@ namespace fileObject {
 		} else {
 			logGeneralAndAdditionalStatus(response);
 			_handler(response.getGeneralStatusCode(), std::vector<uint8_t>());
+			return false;
 		}
 
 		return true;
-- 
2.43.0


From 269d60454b0eee5bf23d657891952d45946faa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 07/31] fix: throw on incomplete fault and forward open replies

---
 src/cip/connectionManager/ForwardOpenResponse.cpp | 6 ++++++
 src/vendor/ra/powerFlex525/DPIFaultObject.cpp     | 4 ++++
 src/vendor/ra/powerFlex525/DPIFaultParameter.cpp  | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/src/cip/connectionManager/ForwardOpenResponse.cpp b/src/cip/connectionManager/ForwardOpenResponse.cpp
index 622c1d1..bb79384 100644
--- a/src/cip/connectionManager/ForwardOpenResponse.cpp
+++ b/src/cip/connectionManager/ForwardOpenResponse.cpp
@@ -2,6 +2,8 @@
 // Created by Aleksey Timin on 11/18/19.
 //
 
+#include <stdexcept>
+
 #include "ForwardOpenResponse.h"
 #include "utils/Buffer.h"
 
@@ -41,6 +43,10 @@ namespace connectionManager {
 
 		_applicationReplay.resize(_applicationReplaySize*2);
 		buffer >> _applicationReplay;
+
+		if (!buffer.isValid()) {
+			throw std::runtime_error("Not enough data in the forward open response");
+		}
 	}
 
 	CipUdint ForwardOpenResponse::getO2TNetworkConnectionId() const {
diff --git a/src/vendor/ra/powerFlex525/DPIFaultObject.cpp b/src/vendor/ra/powerFlex525/DPIFaultObject.cpp
index e3f99cb..d839737 100644
--- a/src/vendor/ra/powerFlex525/DPIFaultObject.cpp
+++ b/src/vendor/ra/powerFlex525/DPIFaultObject.cpp
@@ -54,6 +54,10 @@ namespace powerFlex525 {
 
             cip::CipUint flags;
             buffer >> flags;
+            if (!buffer.isValid()) {
+                throw std::runtime_error("Not enough data in the response");
+            }
+
             _fullInformation.isValidData = flags & VALID_DATA;
             _fullInformation.isRealTime = flags & REAL_TIME;
         } else {
diff --git a/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp b/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp
index db43afb..b4cd508 100644
--- a/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp
+++ b/src/vendor/ra/powerFlex525/DPIFaultParameter.cpp
@@ -168,6 +168,9 @@ namespace powerFlex525 {
 			Buffer buffer(response.getData());
 			CipUint value;
 			buffer >> value;
+			if (!buffer.isValid()) {
+				throw std::runtime_error("Not enough data in the response");
+			}
 
 			return value;
 
-- 
2.43.0


From afd88e01542ff2bb4858fa2a1f6c695383eb8cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 08/31] fix: report failed and complete partial sends

---
 src/IOConnection.cpp      |  7 ++++++-
 src/SessionInfo.cpp       |  8 ++++++--
 src/sockets/TCPSocket.cpp | 14 +++++++++++---
 src/sockets/UDPSocket.cpp |  4 ++--
 4 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 5571496..432bccd 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -134,7 +134,12 @@ namespace eipScanner {
 				buffer << _outputData;
 				commonPacket << factory.createConnectedDataItem(buffer.data());
 
-				_socket->Send(commonPacket.pack());
+				try {
+					_socket->Send(commonPacket.pack());
+				} catch (const std::system_error& er) {
+					Logger(LogLevel::WARNING) << "Failed to send data of connection O2T_ID="
+											  << _o2tNetworkConnectionId << ": " << er.what();
+				}
 			}
 		}
 
diff --git a/src/SessionInfo.cpp b/src/SessionInfo.cpp
index cbfb179..664077c 100644
--- a/src/SessionInfo.cpp
+++ b/src/SessionInfo.cpp
@@ -40,8 +40,12 @@ namespace eipScanner {
 
 	SessionInfo::~SessionInfo() {
 		EncapsPacket packet = EncapsPacketFactory().createUnRegisterSessionPacket(_sessionHandle);
-		_socket.Send(packet.pack());
-		Logger(LogLevel::INFO) << "Unregistered session " << _sessionHandle;
+		try {
+			_socket.Send(packet.pack());
+			Logger(LogLevel::INFO) << "Unregistered session " << _sessionHandle;
+		} catch (const std::system_error& er) {
+			Logger(LogLevel::WARNING) << "Failed to unregister session " << _sessionHandle << ": " << er.what();
+		}
 	}
 
 	EncapsPacket SessionInfo::sendAndReceive(const EncapsPacket& packet) const {
diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index bbceaac..3eb8545 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -132,9 +132,17 @@ namespace eipScanner {
 			// Do not generate SIGPIPE when calling send() on closed socket
 			flags |= MSG_NOSIGNAL;
 #endif
-			int count = send(_sockedFd, (char*)data.data(), data.size(), flags);
-			if (count < data.size()) {
-				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+			size_t sent = 0;
+			while (sent < data.size()) {
+				auto count = send(_sockedFd, (char*)data.data() + sent, data.size() - sent, flags);
+				if (count < 0) {
+					if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR)) {
+						continue;
+					}
+					throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+				}
+
+				sent += count;
 			}
 		}
 
diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index 04f1ddb..826188c 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -59,9 +59,9 @@ namespace sockets {
 		flags |= MSG_NOSIGNAL;
 #endif
 		auto addr = _remoteEndPoint.getAddr();
-		int count = sendto(_sockedFd, (char*)data.data(), data.size(), flags,
+		auto count = sendto(_sockedFd, (char*)data.data(), data.size(), flags,
 				(struct sockaddr *)&addr, sizeof(addr));
-		if (count < data.size()) {
+		if (count < 0) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
 	}
-- 
2.43.0


From ce17fff5bfe6769868ffba98fbe1105f8112299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:36 +0000
Subject: [PATCH 09/31] fix: do not pad replies cut short by the peer with
 zeros

---
 src/SessionInfo.cpp       | 4 ++++
 src/eip/EncapsPacket.cpp  | 4 ++++
 src/sockets/TCPSocket.cpp | 1 +
 3 files changed, 9 insertions(+)

diff --git a/src/SessionInfo.cpp b/src/SessionInfo.cpp
index 664077c..cb713e7 100644
--- a/src/SessionInfo.cpp
+++ b/src/SessionInfo.cpp
@@ -51,6 +51,10 @@ namespace eipScanner {
 	EncapsPacket SessionInfo::sendAndReceive(const EncapsPacket& packet) const {
 		_socket.Send(packet.pack());
 		auto header = _socket.Receive(EncapsPacket::HEADER_SIZE);
+		if (header.size() < EncapsPacket::HEADER_SIZE) {
+			throw std::runtime_error("Connection closed by " + _socket.getRemoteEndPoint().toString());
+		}
+
 		auto length = EncapsPacket::getLengthFromHeader(header);
 		auto data = _socket.Receive(length);
 
diff --git a/src/eip/EncapsPacket.cpp b/src/eip/EncapsPacket.cpp
index 64d2ed3..13a2401 100644
--- a/src/eip/EncapsPacket.cpp
+++ b/src/eip/EncapsPacket.cpp
@@ -99,6 +99,10 @@ namespace eip {
 	}
 
 	size_t EncapsPacket::getLengthFromHeader(const std::vector<uint8_t>& data) {
+		if (data.size() < 4) {
+			throw std::runtime_error("Not enough data to read the length of EncapsPacket");
+		}
+
 		std::vector<uint8_t> lengthVector(data.begin() + 2, data.begin() + 4);
 		Buffer buf(lengthVector);
 
diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index 3eb8545..ef5faa2 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -171,6 +171,7 @@ namespace eipScanner {
 			if (size != count) {
 				Logger(LogLevel::WARNING) << "Received from " << _remoteEndPoint.toString()
 										  << " " << count << " of " << size;
+				recvBuffer.resize(count);
 			}
 
 			return recvBuffer;
-- 
2.43.0


From 103f6ccb1e4b4c15c338d68b9415a3230d8a9aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 10/31] fix: receive UDP datagrams at their real size and skip
 malformed discovery replies

---
 src/DiscoveryManager.cpp  | 16 +++++++++++++++-
 src/sockets/UDPSocket.cpp | 14 ++++++++++++--
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/DiscoveryManager.cpp b/src/DiscoveryManager.cpp
index f8a118a..4a7bcc4 100644
--- a/src/DiscoveryManager.cpp
+++ b/src/DiscoveryManager.cpp
@@ -1,6 +1,7 @@
 //
 // Created by Aleksey Timin on 12/17/19.
 //
+#include <stdexcept>
 #include <system_error>
 
 #include "eip/EncapsPacketFactory.h"
@@ -46,7 +47,15 @@ namespace eipScanner {
 				auto data = socket->Receive(EIP_MAX_PACKET_SIZE);
 
 				CommonPacket commonPacket;
-				commonPacket.expand(std::vector<uint8_t>(data.begin()+EncapsPacket::HEADER_SIZE, data.end()));
+				try {
+					if (data.size() < EncapsPacket::HEADER_SIZE) {
+						throw std::runtime_error("EncapsPacket header must be 24 bytes");
+					}
+					commonPacket.expand(std::vector<uint8_t>(data.begin()+EncapsPacket::HEADER_SIZE, data.end()));
+				} catch (const std::runtime_error& er) {
+					Logger(LogLevel::WARNING) << "Ignore malformed discovery reply: " << er.what();
+					continue;
+				}
 
 				for (int i=0; i < commonPacket.getItems().size(); ++i) {
 					Buffer buffer(commonPacket.getItems()[i].getData());
@@ -65,6 +74,11 @@ namespace eipScanner {
 						   >> revision >> status
 						   >> serialNumber >> productName;
 
+					if (!buffer.isValid()) {
+						Logger(LogLevel::WARNING) << "Ignore malformed identity item in discovery reply";
+						continue;
+					}
+
 					IdentityObject identityObject(i);
 					identityObject.setVendorId(vendorId);
 					identityObject.setDeviceType(deviceType);
diff --git a/src/sockets/UDPSocket.cpp b/src/sockets/UDPSocket.cpp
index 826188c..6462741 100644
--- a/src/sockets/UDPSocket.cpp
+++ b/src/sockets/UDPSocket.cpp
@@ -70,11 +70,16 @@ namespace sockets {
 		std::vector<uint8_t> recvBuffer(size);
 
 		auto len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, NULL, NULL);
-		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
+		while (len < 0 && BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR)) {
+			len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, NULL, NULL);
+		}
+
 		if (len < 0) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
 
+		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
+		recvBuffer.resize(len);
 		return recvBuffer;
 	}
 
@@ -83,11 +88,16 @@ namespace sockets {
 		struct sockaddr_in addr;
 		socklen_t addrFromLength = sizeof(addr);
 		auto len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, (struct sockaddr*)&addr, &addrFromLength);
-		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
+		while (len < 0 && BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR)) {
+			len = recvfrom(_sockedFd, (char*)recvBuffer.data(), recvBuffer.size(), 0, (struct sockaddr*)&addr, &addrFromLength);
+		}
+
 		if (len < 0) {
 			throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 		}
 
+		Logger(LogLevel::TRACE) << "Received " << len << " bytes from UDP socket #" << _sockedFd << ".";
+		recvBuffer.resize(len);
 		endPoint = EndPoint(addr);
 		return recvBuffer;
 	}
-- 
2.43.0


From 84434da90727f8ad9bf217b3484b841a9e51f57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 11/31] fix: close the TCP socket if it cannot be made
 non-blocking

---
 src/sockets/TCPSocket.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index ef5faa2..7c00cd8 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -47,12 +47,16 @@ namespace eipScanner {
 #if defined(__unix__) || defined(__APPLE__)
 			auto arg = fcntl(_sockedFd, F_GETFL, NULL);
 			if (arg < 0) {
-				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+				auto error = BaseSocket::getLastError();
+				Close();
+				throw std::system_error(error, BaseSocket::getErrorCategory());
 			}
 
 			arg |= O_NONBLOCK;
 			if (fcntl(_sockedFd, F_SETFL, arg) < 0) {
-				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
+				auto error = BaseSocket::getLastError();
+				Close();
+				throw std::system_error(error, BaseSocket::getErrorCategory());
 			}
 #endif
 
-- 
2.43.0


From 09c3eb87f343cc2db2921f06839761783a106a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 12/31] fix: keep waiting for the sockets after an interruption
 by a signal

---
 src/sockets/BaseSocket.cpp | 7 +++++++
 src/sockets/TCPSocket.cpp  | 8 ++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/sockets/BaseSocket.cpp b/src/sockets/BaseSocket.cpp
index efb71db..793494b 100644
--- a/src/sockets/BaseSocket.cpp
+++ b/src/sockets/BaseSocket.cpp
@@ -135,6 +135,13 @@ namespace sockets {
 			}
 
 			ready = ::select(socketWithMaxFd->getSocketFd() + 1, &recvSet, NULL, NULL, &tv);
+			if (ready < 0 && BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR)) {
+				// Interrupted by a signal, wait for the rest of the time
+				startTime = std::chrono::steady_clock::now();
+				ready = 1;
+				continue;
+			}
+
 			if (ready < 0) {
 				throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 			}
diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index 7c00cd8..b39eee4 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -68,15 +68,19 @@ namespace eipScanner {
 				auto res = connect(_sockedFd, (struct sockaddr *) &addr, sizeof(addr));
 				if (res < 0) {
 					if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINPROGRESS)) {
+						auto stopTime = std::chrono::steady_clock::now() + connTimeout;
 						do {
 							fd_set myset;
-							auto tv = makePortableInterval(connTimeout);
+							auto tv = makePortableInterval(std::chrono::ceil<std::chrono::milliseconds>(
+									stopTime - std::chrono::steady_clock::now()));
 
 							FD_ZERO(&myset);
 							FD_SET(_sockedFd, &myset);
 							res = ::select(_sockedFd + 1, NULL, &myset, NULL, &tv);
 
-							if (res < 0 && BaseSocket::getLastError() != EIPSCANNER_SOCKET_ERROR(EINTR)) {
+							if (res < 0 && BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINTR)) {
+								continue;
+							} else if (res < 0) {
 								throw std::system_error(BaseSocket::getLastError(), BaseSocket::getErrorCategory());
 							} else if (res > 0) {
 								// Socket selected for write
-- 
2.43.0


From bf3eed64472ac49173939138c07a941950f8643c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:03 +0000
Subject: [PATCH 13/31] fix: only wait when there are no sockets to select

---
 src/sockets/BaseSocket.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sockets/BaseSocket.cpp b/src/sockets/BaseSocket.cpp
index 793494b..4c48659 100644
--- a/src/sockets/BaseSocket.cpp
+++ b/src/sockets/BaseSocket.cpp
@@ -13,6 +13,7 @@
 
 #include <utility>
 #include <algorithm>
+#include <thread>
 
 #include "BaseSocket.h"
 #include "Platform.h"
@@ -118,6 +119,11 @@ namespace sockets {
 	}
 
 	void BaseSocket::select(std::vector<BaseSocket::SPtr> sockets, std::chrono::milliseconds timeout) {
+		if (sockets.empty()) {
+			std::this_thread::sleep_for(timeout);
+			return;
+		}
+
 		BaseSocket::SPtr socketWithMaxFd = *std::max_element(sockets.begin(), sockets.end(), [](auto sock1, auto sock2) {
 			return sock1->getSocketFd() < sock2->getSocketFd();
 		});
-- 
2.43.0


From 506a284acd52bdce168a91768e7f25d1770cfd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:06 +0000
Subject: [PATCH 14/31] fix: do not write outside fd_set when there are too
 many open descriptors

---
 src/sockets/BaseSocket.cpp | 7 +++++++
 src/sockets/TCPSocket.cpp  | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/src/sockets/BaseSocket.cpp b/src/sockets/BaseSocket.cpp
index 4c48659..0ab5a67 100644
--- a/src/sockets/BaseSocket.cpp
+++ b/src/sockets/BaseSocket.cpp
@@ -128,6 +128,13 @@ namespace sockets {
 			return sock1->getSocketFd() < sock2->getSocketFd();
 		});
 
+#if defined(__unix__) || defined(__APPLE__)
+		if (socketWithMaxFd->getSocketFd() >= FD_SETSIZE) {
+			// select() can't watch the descriptor
+			throw std::system_error(EIPSCANNER_SOCKET_ERROR(EMFILE), BaseSocket::getErrorCategory());
+		}
+#endif
+
 		auto startTime = std::chrono::steady_clock::now();
 		auto stopTime = startTime + timeout;
 		int ready;
diff --git a/src/sockets/TCPSocket.cpp b/src/sockets/TCPSocket.cpp
index b39eee4..c914054 100644
--- a/src/sockets/TCPSocket.cpp
+++ b/src/sockets/TCPSocket.cpp
@@ -68,6 +68,12 @@ namespace eipScanner {
 				auto res = connect(_sockedFd, (struct sockaddr *) &addr, sizeof(addr));
 				if (res < 0) {
 					if (BaseSocket::getLastError() == EIPSCANNER_SOCKET_ERROR(EINPROGRESS)) {
+#if defined(__unix__) || defined(__APPLE__)
+						if (_sockedFd >= FD_SETSIZE) {
+							// select() can't watch the descriptor
+							throw std::system_error(EIPSCANNER_SOCKET_ERROR(EMFILE), BaseSocket::getErrorCategory());
+						}
+#endif
 						auto stopTime = std::chrono::steady_clock::now() + connTimeout;
 						do {
 							fd_set myset;
-- 
2.43.0


From 9999e2d3bc02f192af7fc0f38815d92aec85461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:36 +0000
Subject: [PATCH 15/31] fix: distinguish IO connections by the whole 32-bit ID

---
 src/ConnectionManager.cpp | 2 +-
 src/ConnectionManager.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index a4c76a2..a9106be 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -58,7 +58,7 @@ namespace eipScanner {
 		NetworkConnectionParametersBuilder t2oNCP(connectionParameters.t2oNetworkConnectionParams, isLarge);
 
 		if (o2tNCP.getConnectionType() == NetworkConnectionParametersBuilder::MULTICAST) {
-			static cip::CipUint idCount = _incarnationId << 16;
+			static cip::CipUdint idCount = _incarnationId << 16;
 			connectionParameters.o2tNetworkConnectionId = ++idCount;
 		}
 
diff --git a/src/ConnectionManager.h b/src/ConnectionManager.h
index a317067..ab54392 100644
--- a/src/ConnectionManager.h
+++ b/src/ConnectionManager.h
@@ -75,7 +75,7 @@ namespace eipScanner {
 		bool hasOpenConnections() const;
 	private:
 		MessageRouter::SPtr _messageRouter;
-		std::map<cip::CipUint, IOConnection::SPtr> _connectionMap;
+		std::map<cip::CipUdint, IOConnection::SPtr> _connectionMap;
 		std::map<sockets::EndPoint, std::shared_ptr<sockets::UDPBoundSocket>> _socketMap;
 
 		sockets::UDPBoundSocket::SPtr  findOrCreateSocket(const sockets::EndPoint& endPoint);
-- 
2.43.0


From a1bd6fe46de2eaefc4a4ac31c6b2ce3f99f4aa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 16/31] fix: ignore malformed IO packets instead of throwing
 from handleConnections

---
 src/ConnectionManager.cpp | 17 ++++++++++++++++-
 src/IOConnection.cpp      |  6 ++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index a9106be..36a68b1 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -239,12 +239,27 @@ namespace eipScanner {
 			newSocket->setBeginReceiveHandler([this](BaseSocket& sock) {
 				auto recvData = sock.Receive(8192);
 				CommonPacket commonPacket;
-				commonPacket.expand(recvData);
+				try {
+					commonPacket.expand(recvData);
+				} catch (const std::runtime_error& er) {
+					Logger(LogLevel::WARNING) << "Ignore malformed packet: " << er.what();
+					return;
+				}
+
+				if (commonPacket.getItems().size() < 2) {
+					Logger(LogLevel::WARNING) << "Ignore malformed packet: it must have an address and a data item";
+					return;
+				}
 
 				// TODO: Check TypeIDs and sequence of the packages
 				Buffer buffer(commonPacket.getItems().at(0).getData());
 				cip::CipUdint connectionId;
 				buffer >> connectionId;
+				if (!buffer.isValid()) {
+					Logger(LogLevel::WARNING) << "Ignore malformed packet: it has no connection ID";
+					return;
+				}
+
 				Logger(LogLevel::DEBUG) << "Received data from connection T2O_ID=" << connectionId;
 
 				auto io = _connectionMap.find(connectionId);
diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 432bccd..b4a6d0a 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -79,6 +79,12 @@ namespace eipScanner {
 			buffer >> sequenceValueCount;
 		}
 
+		if (!buffer.isValid()) {
+			Logger(LogLevel::WARNING) << "Connection T2O_ID=" << _t2oNetworkConnectionId
+				<< " received only " << data.size() << " bytes. Ignore this data.";
+			return;
+		}
+
 		std::vector<uint8_t> ioData(data.begin() + buffer.pos(), data.end());
 		if (_t2oFixedSize && ioData.size() != _t2oDataSize) {
 			Logger(LogLevel::WARNING) << "Connection T2O_ID=" << _t2oNetworkConnectionId
-- 
2.43.0


From 6280eeb06efa8495322fa5f35aedb844c99ee9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 17/31] fix: read the sequence count before the real time
 header as it is sent

---
 src/IOConnection.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index b4a6d0a..de28045 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -70,15 +70,15 @@ namespace eipScanner {
 		cip::CipUdint runtimeHeader = 0;
 		cip::CipUint sequenceValueCount = 0;
 
-		if (_t2oRealTimeFormat) {
-			buffer >> runtimeHeader;
-		}
-
 		if ((_transportTypeTrigger & NetworkConnectionParams::CLASS1) > 0
 			|| (_transportTypeTrigger & NetworkConnectionParams::CLASS3) > 0) {
 			buffer >> sequenceValueCount;
 		}
 
+		if (_t2oRealTimeFormat) {
+			buffer >> runtimeHeader;
+		}
+
 		if (!buffer.isValid()) {
 			Logger(LogLevel::WARNING) << "Connection T2O_ID=" << _t2oNetworkConnectionId
 				<< " received only " << data.size() << " bytes. Ignore this data.";
-- 
2.43.0


From 8b5737edda293252bd322bdd8535dd7bdb534b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 18/31] fix: count the time of IO connections without losing or
 overflowing it

---
 src/IOConnection.cpp | 15 +++++++--------
 src/IOConnection.h   |  6 +++---
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index de28045..07c2f38 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -29,7 +29,6 @@ namespace eipScanner {
 			, _o2tTimer{0}
 			, _t2o_timer{0}
 			, _connectionTimeoutMultiplier{0}
-			, _connectionTimeoutCount{0}
 			, _o2tSequenceNumber{0}
 			, _t2oSequenceNumber{0}
 			, _serialNumber{0}
@@ -44,7 +43,8 @@ namespace eipScanner {
 			, _receiveDataHandle([](auto, auto, auto) {})
 			, _closeHandle([]() {})
 			, _sendDataHandle([](auto) {})
-			, _lastHandleTime(std::chrono::steady_clock::now()) {
+			, _lastHandleTime(std::chrono::steady_clock::now())
+			, _lastReceiveTime(_lastHandleTime) {
 	}
 
 	IOConnection::~IOConnection() = default;
@@ -91,7 +91,7 @@ namespace eipScanner {
 				<< " has fixed size " << _t2oDataSize << " bytes but " << ioData.size()
 				<< " bytes were received. Ignore this data.";
 		} else {
-			_connectionTimeoutCount = 0;
+			_lastReceiveTime = std::chrono::steady_clock::now();
 			_receiveDataHandle(runtimeHeader, sequenceValueCount,
 							   ioData);
 		}
@@ -100,17 +100,16 @@ namespace eipScanner {
 	bool IOConnection::notifyTick() {
 		auto now = std::chrono::steady_clock::now();
 		auto sinceLastHandle =
-			std::chrono::duration_cast<std::chrono::milliseconds>(now - _lastHandleTime);
+			std::chrono::duration_cast<std::chrono::microseconds>(now - _lastHandleTime);
 
-		auto periodInMicroS = sinceLastHandle.count() * 1000;
-		_connectionTimeoutCount += periodInMicroS;
-		if (_connectionTimeoutCount > _connectionTimeoutMultiplier * _t2oAPI) {
+		auto periodInMicroS = sinceLastHandle.count();
+		if (now - _lastReceiveTime > _connectionTimeoutMultiplier * std::chrono::microseconds(_t2oAPI)) {
 			Logger(LogLevel::WARNING) << "Connection SeriaNumber=" << _serialNumber << " is closed by timeout";
 			_closeHandle();
 			return false;
 		}
 
-		_lastHandleTime = now;
+		_lastHandleTime += sinceLastHandle;
 
 		_o2tTimer += periodInMicroS;
 		if (_o2tTimer >= _o2tAPI) {
diff --git a/src/IOConnection.h b/src/IOConnection.h
index 9058d89..13b0932 100644
--- a/src/IOConnection.h
+++ b/src/IOConnection.h
@@ -80,11 +80,10 @@ namespace eipScanner {
 		bool _o2tFixedSize;
 		bool _t2oFixedSize;
 
-		cip::CipUdint _o2tTimer;
+		cip::CipUlint _o2tTimer;
 		cip::CipUdint _t2o_timer;
 
-		cip::CipUsint _connectionTimeoutMultiplier;
-		cip::CipUdint _connectionTimeoutCount;
+		cip::CipUint _connectionTimeoutMultiplier;
 
 		cip::CipUdint _o2tSequenceNumber;
 		cip::CipUdint _t2oSequenceNumber;
@@ -107,6 +106,7 @@ namespace eipScanner {
 		SendDataHandle _sendDataHandle;
 
 		std::chrono::steady_clock::time_point _lastHandleTime;
+		std::chrono::steady_clock::time_point _lastReceiveTime;
 	};
 }
 
-- 
2.43.0


From 9f940cdbc40be30a8540874464d14e4f3562c598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:32 +0000
Subject: [PATCH 19/31] fix: let listeners open and close connections, ignore
 repeated closing

---
 src/ConnectionManager.cpp | 28 +++++++++++++++-------------
 src/ConnectionManager.h   |  1 +
 src/IOConnection.cpp      |  5 +++++
 src/IOConnection.h        |  1 +
 4 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index 36a68b1..e19952f 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -2,7 +2,6 @@
 // Created by Aleksey Timin on 11/18/19.
 //
 #include <algorithm>
-#include <cassert>
 #include <cstdlib>
 #include <random>
 
@@ -173,7 +172,8 @@ namespace eipScanner {
 	}
 
 	void ConnectionManager::forwardClose(const SessionInfoIf::SPtr& si, const IOConnection::WPtr& ioConnection) {
-		if (auto ptr = ioConnection.lock()) {
+		auto ptr = ioConnection.lock();
+		if (ptr && isOpen(ptr)) {
 			ForwardCloseRequest request;
 
 			request.setConnectionPath(ptr->_connectionPath);
@@ -196,9 +196,8 @@ namespace eipScanner {
 					<< ". But the connection is removed from ConnectionManager anyway";
 			}
 
-			auto rc = _connectionMap.erase(ptr->_t2oNetworkConnectionId);
-			(void) rc;
-			assert(rc);
+			ptr->_isClosed = true;
+			_connectionMap.erase(ptr->_t2oNetworkConnectionId);
 		} else {
 			Logger(LogLevel::WARNING) << "Attempt to close an already closed connection";
 		}
@@ -214,16 +213,18 @@ namespace eipScanner {
 
 		BaseSocket::select(sockets, timeout);
 
-		std::vector<cip::CipUdint> connectionsToClose;
-		for (auto& entry : _connectionMap) {
-			if (!entry.second->notifyTick()) {
-				connectionsToClose.push_back(entry.first);
+		// The listeners can open and close connections, so iterate over a copy
+		auto connections = _connectionMap;
+		for (auto& entry : connections) {
+			if (isOpen(entry.second) && !entry.second->notifyTick() && isOpen(entry.second)) {
+				_connectionMap.erase(entry.first);
 			}
 		}
+	}
 
-		for (auto& id : connectionsToClose) {
-			_connectionMap.erase(id);
-		}
+	bool ConnectionManager::isOpen(const IOConnection::SPtr& ioConnection) const {
+		auto it = _connectionMap.find(ioConnection->_t2oNetworkConnectionId);
+		return it != _connectionMap.end() && it->second == ioConnection;
 	}
 
 	UDPBoundSocket::SPtr ConnectionManager::findOrCreateSocket(const sockets::EndPoint& endPoint) {
@@ -264,7 +265,8 @@ namespace eipScanner {
 
 				auto io = _connectionMap.find(connectionId);
 				if (io != _connectionMap.end()) {
-					io->second->notifyReceiveData(commonPacket.getItems().at(1).getData());
+					auto ioConnection = io->second; // the listener can close the connection
+					ioConnection->notifyReceiveData(commonPacket.getItems().at(1).getData());
 				} else {
 					Logger(LogLevel::ERROR) << "Received data from unknown connection T2O_ID=" << connectionId;
 				}
diff --git a/src/ConnectionManager.h b/src/ConnectionManager.h
index ab54392..2a69644 100644
--- a/src/ConnectionManager.h
+++ b/src/ConnectionManager.h
@@ -79,6 +79,7 @@ namespace eipScanner {
 		std::map<sockets::EndPoint, std::shared_ptr<sockets::UDPBoundSocket>> _socketMap;
 
 		sockets::UDPBoundSocket::SPtr  findOrCreateSocket(const sockets::EndPoint& endPoint);
+		bool isOpen(const IOConnection::SPtr& ioConnection) const;
 		cip::CipUint _incarnationId;
 	};
 }
diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 07c2f38..22303eb 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -40,6 +40,7 @@ namespace eipScanner {
 			, _originatorVendorId{0}
 			, _originatorSerialNumber{0}
 			, _outputData()
+			, _isClosed(false)
 			, _receiveDataHandle([](auto, auto, auto) {})
 			, _closeHandle([]() {})
 			, _sendDataHandle([](auto) {})
@@ -131,6 +132,10 @@ namespace eipScanner {
 
 			_o2tTimer = 0;
 			_sendDataHandle(_outputData);
+			if (_isClosed) {
+				return false; // the listener has closed the connection
+			}
+
 			if (_o2tFixedSize && _outputData.size() != _o2tDataSize)  {
 				Logger(LogLevel::WARNING) << "Connection O2T_ID=" << _o2tNetworkConnectionId
 										  << " has fixed size " << _o2tDataSize << " bytes but " << _outputData.size()
diff --git a/src/IOConnection.h b/src/IOConnection.h
index 13b0932..5d2371e 100644
--- a/src/IOConnection.h
+++ b/src/IOConnection.h
@@ -98,6 +98,7 @@ namespace eipScanner {
 		cip::CipUdint _originatorSerialNumber;
 
 		std::vector<uint8_t> _outputData;
+		bool _isClosed;
 
 		sockets::UDPSocket::UPtr _socket;
 
-- 
2.43.0


From 84b14c4a6a6be199e8b798db02f654b074513187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 20/31] fix: parse paths with zero class, instance or attribute

---
 src/cip/EPath.cpp                              | 16 +++++++++++++---
 src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/cip/EPath.cpp b/src/cip/EPath.cpp
index 447ef30..215bea9 100644
--- a/src/cip/EPath.cpp
+++ b/src/cip/EPath.cpp
@@ -132,6 +132,10 @@ namespace cip {
 		_attributeId = 0;
 		_size = 0;
 
+		bool hasClass = false;
+		bool hasObject = false;
+		bool hasAttribute = false;
+
 		for (int i = 0; i < data.size() && !buffer.empty(); ++i) {
 			EPathSegmentTypes segmentType;
 			CipUsint ignore = 0;
@@ -142,26 +146,32 @@ namespace cip {
 				case EPathSegmentTypes::CLASS_8_BITS:
 					buffer >> byte;
 					_classId = byte;
+					hasClass = true;
 					break;
 				case EPathSegmentTypes::CLASS_16_BITS:
 					buffer >> ignore >> word;
 					_classId = word;
+					hasClass = true;
 					break;
 				case EPathSegmentTypes::INSTANCE_8_BITS:
 					buffer >> byte;
 					_objectId = byte;
+					hasObject = true;
 					break;
 				case EPathSegmentTypes::INSTANCE_16_BITS:
 					buffer >> ignore >> word;
 					_objectId = word;
+					hasObject = true;
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_8_BITS:
 					buffer >> byte;
 					_attributeId = byte;
+					hasAttribute = true;
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_16_BITS:
 					buffer >> ignore >> word;
 					_attributeId = word;
+					hasAttribute = true;
 					break;
 				default:
 					throw std::runtime_error("Unknown EPATH segment =" + std::to_string(static_cast<int>(segmentType)));
@@ -172,13 +182,13 @@ namespace cip {
 			throw std::runtime_error("Wrong EPATH format");
 		}
 
-		if (_classId > 0) {
+		if (hasClass) {
 			_size++;
 
-			if (_objectId > 0) {
+			if (hasObject) {
 				_size++;
 
-				if (_attributeId > 0) {
+				if (hasAttribute) {
 					_size++;
 				}
 			}
diff --git a/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp b/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
index db26946..2e530b2 100644
--- a/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
+++ b/src/vendor/yaskawa/mp3300iec/Yaskawa_EPath.cpp
@@ -102,6 +102,10 @@ namespace cip {
 		_attributeId = 0;
 		_size = 0;
 
+		bool hasClass = false;
+		bool hasObject = false;
+		bool hasAttribute = false;
+
 		for (int i = 0; i < data.size() && !buffer.empty(); ++i) {
 			EPathSegmentTypes segmentType;
 			CipUsint ignore = 0;
@@ -112,26 +116,32 @@ namespace cip {
 				case EPathSegmentTypes::CLASS_8_BITS:
 					buffer >> byte;
 					_classId = byte;
+					hasClass = true;
 					break;
 				case EPathSegmentTypes::CLASS_16_BITS:
 					buffer >> ignore >> word;
 					_classId = word;
+					hasClass = true;
 					break;
 				case EPathSegmentTypes::INSTANCE_8_BITS:
 					buffer >> byte;
 					_objectId = byte;
+					hasObject = true;
 					break;
 				case EPathSegmentTypes::INSTANCE_16_BITS:
 					buffer >> ignore >> word;
 					_objectId = word;
+					hasObject = true;
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_8_BITS:
 					buffer >> byte;
 					_attributeId = byte;
+					hasAttribute = true;
 					break;
 				case EPathSegmentTypes::ATTRIBUTE_16_BITS:
 					buffer >> ignore >> word;
 					_attributeId = word;
+					hasAttribute = true;
 					break;
 				default:
 					throw std::runtime_error("Unknown EPATH segment =" + std::to_string(static_cast<int>(segmentType)));
@@ -142,13 +152,13 @@ namespace cip {
 			throw std::runtime_error("Wrong EPATH format");
 		}
 
-		if (_classId > 0) {
+		if (hasClass) {
 			_size++;
 
-			if (_objectId > 0) {
+			if (hasObject) {
 				_size++;
 
-				if (_attributeId > 0) {
+				if (hasAttribute) {
 					_size++;
 				}
 			}
-- 
2.43.0


From 7b1d292483393dba172c9a0783da521a99ced546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 21/31] fix: keep the fields chained after setRedundantOwner

---
 .../connectionManager/NetworkConnectionParametersBuilder.cpp    | 2 +-
 src/cip/connectionManager/NetworkConnectionParametersBuilder.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp b/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
index 219a191..5e34c08 100644
--- a/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
+++ b/src/cip/connectionManager/NetworkConnectionParametersBuilder.cpp
@@ -19,7 +19,7 @@ namespace connectionManager {
 
 	}
 
-	NetworkConnectionParametersBuilder NetworkConnectionParametersBuilder::setRedundantOwner(RedundantOwner val) {
+	NetworkConnectionParametersBuilder& NetworkConnectionParametersBuilder::setRedundantOwner(RedundantOwner val) {
 		if (_lfo) {
 			_value |= (val << 31);
 		} else {
diff --git a/src/cip/connectionManager/NetworkConnectionParametersBuilder.h b/src/cip/connectionManager/NetworkConnectionParametersBuilder.h
index ba091fa..203bb1a 100644
--- a/src/cip/connectionManager/NetworkConnectionParametersBuilder.h
+++ b/src/cip/connectionManager/NetworkConnectionParametersBuilder.h
@@ -41,7 +41,7 @@ namespace connectionManager {
 		NetworkConnectionParametersBuilder(CipUdint val = 0, bool lfo = false);
 		virtual ~NetworkConnectionParametersBuilder() = default;
 
-		NetworkConnectionParametersBuilder setRedundantOwner(RedundantOwner val);
+		NetworkConnectionParametersBuilder& setRedundantOwner(RedundantOwner val);
 		NetworkConnectionParametersBuilder& setConnectionType(ConnectionType val);
 		NetworkConnectionParametersBuilder& setPriority(Priority val);
 		NetworkConnectionParametersBuilder& setType(Type val);
-- 
2.43.0


From ef9a46361f31b6979e0e72bea3d457ae6b1d6039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 22/31] fix: throw on an incomplete socket address in a forward
 open reply

---
 src/ConnectionManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index e19952f..1c97985 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -135,6 +135,9 @@ namespace eipScanner {
 				Buffer sockAddrBuffer(o2tSockAddrInfo->getData());
 				sockets::EndPoint endPoint("",0);
 				sockAddrBuffer >> endPoint;
+				if (!sockAddrBuffer.isValid()) {
+					throw std::runtime_error("Forward open reply has an incomplete socket address");
+				}
 
 				if (endPoint.getHost() == "0.0.0.0") {
 					ioConnection->_socket = std::make_unique<UDPSocket>(
-- 
2.43.0


From 2f1acf60ad59878deb892b1e244b97867472d8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 23/31] fix: give unique IDs to connections opened in different
 threads

---
 src/ConnectionManager.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index 1c97985..5d263ab 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -2,6 +2,7 @@
 // Created by Aleksey Timin on 11/18/19.
 //
 #include <algorithm>
+#include <atomic>
 #include <cstdlib>
 #include <random>
 
@@ -50,19 +51,19 @@ namespace eipScanner {
 
 	IOConnection::WPtr
 	ConnectionManager::forwardOpen(const SessionInfoIf::SPtr& si, ConnectionParameters connectionParameters, bool isLarge) {
-		static int serialNumberCount = 0;
+		static std::atomic<int> serialNumberCount{0};
 		connectionParameters.connectionSerialNumber = ++serialNumberCount;
 
 		NetworkConnectionParametersBuilder o2tNCP(connectionParameters.o2tNetworkConnectionParams, isLarge);
 		NetworkConnectionParametersBuilder t2oNCP(connectionParameters.t2oNetworkConnectionParams, isLarge);
 
 		if (o2tNCP.getConnectionType() == NetworkConnectionParametersBuilder::MULTICAST) {
-			static cip::CipUdint idCount = _incarnationId << 16;
+			static std::atomic<cip::CipUdint> idCount{static_cast<cip::CipUdint>(_incarnationId) << 16};
 			connectionParameters.o2tNetworkConnectionId = ++idCount;
 		}
 
 		if (t2oNCP.getConnectionType() == NetworkConnectionParametersBuilder::P2P) {
-			static cip::CipUdint idCount = _incarnationId << 16;
+			static std::atomic<cip::CipUdint> idCount{static_cast<cip::CipUdint>(_incarnationId) << 16};
 			connectionParameters.t2oNetworkConnectionId = ++idCount;
 		}
 
-- 
2.43.0


From b5b89f54cc3f44f6b65767ed309e0516b7594a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 24/31] fix: order endpoints by host and then by port

---
 src/ConnectionManager.cpp | 3 ++-
 src/sockets/EndPoint.cpp  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index 5d263ab..2f6b2a2 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -154,7 +154,8 @@ namespace eipScanner {
 			Logger(LogLevel::INFO) << "Open UDP socket to send data to "
 					<< ioConnection->_socket->getRemoteEndPoint().toString();
 
-			findOrCreateSocket(sockets::EndPoint(si->getRemoteEndPoint().getHost(), EIP_DEFAULT_IMPLICIT_PORT));
+			// one bound socket receives the data of all the adapters
+			findOrCreateSocket(sockets::EndPoint("0.0.0.0", EIP_DEFAULT_IMPLICIT_PORT));
 
 			auto result = _connectionMap
 					.insert(std::make_pair(response.getT2ONetworkConnectionId(), ioConnection));
diff --git a/src/sockets/EndPoint.cpp b/src/sockets/EndPoint.cpp
index b6de7ad..e1b4c8b 100644
--- a/src/sockets/EndPoint.cpp
+++ b/src/sockets/EndPoint.cpp
@@ -67,7 +67,7 @@ namespace sockets {
 
 	bool EndPoint::operator< (const EndPoint& rhs) const {
 		return _host < rhs._host
-			   && _port < rhs._port;
+			   || (_host == rhs._host && _port < rhs._port);
 	}
 
 	std::string EndPoint::toString() const {
-- 
2.43.0


From b0a46d93a8cd00f81102caf70849db7c70199e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:58 +0000
Subject: [PATCH 25/31] fix: round values converted from engineering units

---
 src/ParameterObject.cpp |  2 +-
 src/ParameterObject.h   | 17 ++++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/ParameterObject.cpp b/src/ParameterObject.cpp
index 0569d3d..57172a1 100644
--- a/src/ParameterObject.cpp
+++ b/src/ParameterObject.cpp
@@ -319,7 +319,7 @@ namespace eipScanner {
 	cip::CipLreal ParameterObject::engToActualValue(cip::CipLreal engValue) const {
 		if (_isScalable) {
 			return (engValue * _scalingDivisor * std::pow(10, _precision))
-				   / (_scalingMultiplier * _scalingBase) - _scalingOffset;
+				   / (static_cast<cip::CipLreal>(_scalingMultiplier) * _scalingBase) - _scalingOffset;
 		} else {
 			return engValue;
 		}
diff --git a/src/ParameterObject.h b/src/ParameterObject.h
index c338f24..e36ff30 100644
--- a/src/ParameterObject.h
+++ b/src/ParameterObject.h
@@ -7,6 +7,7 @@
 
 #include <cmath>
 #include <stdexcept>
+#include <type_traits>
 #include "MessageRouter.h"
 #include "utils/Buffer.h"
 #include "BaseObject.h"
@@ -148,7 +149,7 @@ public:
 	 */
 	template <typename T>
 	void setEngMinValue(cip::CipLreal value) {
-		T actualValue = static_cast<T>(engToActualValue(value));
+		T actualValue = engToActualValue<T>(value);
 		_minValue = decodeValue<T>(actualValue);
 	}
 
@@ -182,7 +183,7 @@ public:
 	 */
 	template <typename T>
 	void setEngMaxValue(cip::CipLreal value) {
-		T actualValue = static_cast<T>(engToActualValue(value));
+		T actualValue = engToActualValue<T>(value);
 		_maxValue = decodeValue<T>(actualValue);
 	}
 
@@ -216,7 +217,7 @@ public:
 	 */
 	template <typename T>
 	void setEngDefaultValue(cip::CipLreal value) {
-		T actualValue = static_cast<T>(engToActualValue(value));
+		T actualValue = engToActualValue<T>(value);
 		_defaultValue = decodeValue<T>(actualValue);
 	}
 
@@ -344,6 +345,16 @@ public:
 
 private:
 
+	template <typename T>
+	T engToActualValue(cip::CipLreal engValue) const {
+		auto actualValue = engToActualValue(engValue);
+		if (std::is_integral<T>::value) {
+			actualValue = std::round(actualValue);
+		}
+
+		return static_cast<T>(actualValue);
+	}
+
 	template <typename T>
 	T encodeValue(const std::vector<uint8_t>& data) const {
 		utils::Buffer buffer(data);
-- 
2.43.0


From 6b2773689ba433cfc2008b3525646096c9dc01f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:31 +0000
Subject: [PATCH 26/31] fix: skip serial numbers of open connections after the
 counter wraps

---
 src/ConnectionManager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index 2f6b2a2..b141c99 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -52,7 +52,11 @@ namespace eipScanner {
 	IOConnection::WPtr
 	ConnectionManager::forwardOpen(const SessionInfoIf::SPtr& si, ConnectionParameters connectionParameters, bool isLarge) {
 		static std::atomic<int> serialNumberCount{0};
-		connectionParameters.connectionSerialNumber = ++serialNumberCount;
+		do {
+			connectionParameters.connectionSerialNumber = ++serialNumberCount;
+		} while (std::any_of(_connectionMap.begin(), _connectionMap.end(), [&](const auto& entry) {
+			return entry.second->_serialNumber == connectionParameters.connectionSerialNumber;
+		}));
 
 		NetworkConnectionParametersBuilder o2tNCP(connectionParameters.o2tNetworkConnectionParams, isLarge);
 		NetworkConnectionParametersBuilder t2oNCP(connectionParameters.t2oNetworkConnectionParams, isLarge);
-- 
2.43.0


From 1b31ee99c06dd5f74ada9ebd4e4e898d5a9aafe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:28 +0000
Subject: [PATCH 27/31] fix: let parameters created without reading be updated

---
 src/ParameterObject.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ParameterObject.cpp b/src/ParameterObject.cpp
index 57172a1..947f257 100644
--- a/src/ParameterObject.cpp
+++ b/src/ParameterObject.cpp
@@ -56,7 +56,8 @@ namespace eipScanner {
             , _scalingDivisor(1)
             , _scalingBase(1)
             , _scalingOffset(0)
-            , _precision(0) {
+            , _precision(0)
+            , _messageRouter{std::make_shared<MessageRouter>()} {
     }
 
     ParameterObject::ParameterObject(cip::CipUint instanceId, bool fullAttributes,
-- 
2.43.0


From f2afbd793a9a0f1e52451815497d515deea13454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:13 +0000
Subject: [PATCH 28/31] fix: receive I/O datagrams of any size instead of
 cutting them at 8192 bytes

---
 src/ConnectionManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ConnectionManager.cpp b/src/ConnectionManager.cpp
index b141c99..f023f0c 100644
--- a/src/ConnectionManager.cpp
+++ b/src/ConnectionManager.cpp
@@ -28,6 +28,9 @@ namespace eipScanner {
 	using sockets::UDPBoundSocket;
 	using sockets::BaseSocket;
 
+	// A large forward open can agree on frames as long as a UDP datagram can be
+	static const size_t MAX_DATAGRAM_SIZE = 65535;
+
 	enum class ConnectionManagerServiceCodes : cip::CipUsint {
 		FORWARD_OPEN = 0x54,
 		LARGE_FORWARD_OPEN = 0x5B,
@@ -247,7 +250,7 @@ namespace eipScanner {
 			});
 
 			newSocket->setBeginReceiveHandler([this](BaseSocket& sock) {
-				auto recvData = sock.Receive(8192);
+				auto recvData = sock.Receive(MAX_DATAGRAM_SIZE);
 				CommonPacket commonPacket;
 				try {
 					commonPacket.expand(recvData);
-- 
2.43.0


From 1545212fa6d4a7097d01dcae1e4201b73980bed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:15 +0000
Subject: [PATCH 29/31] fix: reject engineering values that do not fit instead
 of converting them with undefined behaviour

---
 src/ParameterObject.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ParameterObject.h b/src/ParameterObject.h
index e36ff30..fedb287 100644
--- a/src/ParameterObject.h
+++ b/src/ParameterObject.h
@@ -6,6 +6,7 @@
 #define EIPSCANNER_PARAMETEROBJECT_H
 
 #include <cmath>
+#include <limits>
 #include <stdexcept>
 #include <type_traits>
 #include "MessageRouter.h"
@@ -350,6 +351,11 @@ private:
 		auto actualValue = engToActualValue(engValue);
 		if (std::is_integral<T>::value) {
 			actualValue = std::round(actualValue);
+
+			const cip::CipLreal limit = std::ldexp(1.0, std::numeric_limits<T>::digits);
+			if (!(actualValue < limit && actualValue >= (std::is_signed<T>::value ? -limit : 0.0))) {
+				throw std::out_of_range("The engineering value does not fit in the type of the parameter");
+			}
 		}
 
 		return static_cast<T>(actualValue);
-- 
2.43.0


From b8b6be0f053f91af26d8779ac08c5acdc8f79053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:42 +0000
Subject: [PATCH 30/31] fix: read the identity of the instance asked for

---
 src/IdentityObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IdentityObject.cpp b/src/IdentityObject.cpp
index 5e11fea..cebc3d9 100644
--- a/src/IdentityObject.cpp
+++ b/src/IdentityObject.cpp
@@ -37,7 +37,7 @@ namespace eipScanner {
 		auto response = messageRouter->sendRequest(
 				si,
 				ServiceCodes::GET_ATTRIBUTE_ALL,
-				EPath(CLASS_ID, 1),
+				EPath(CLASS_ID, instanceId),
 				{});
 
 		if (response.getGeneralStatusCode() == GeneralStatusCodes::SUCCESS) {
-- 
2.43.0


From 974dd7309ca1028726cfda02bcff258bb980a45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:04 +0000
Subject: [PATCH 31/31] fix: keep a listener alive while it runs, it can be
 replaced by itself

---
 src/IOConnection.cpp | 21 ++++++++++++---------
 src/IOConnection.h   |  7 ++++---
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/IOConnection.cpp b/src/IOConnection.cpp
index 22303eb..414a7da 100644
--- a/src/IOConnection.cpp
+++ b/src/IOConnection.cpp
@@ -41,9 +41,9 @@ namespace eipScanner {
 			, _originatorSerialNumber{0}
 			, _outputData()
 			, _isClosed(false)
-			, _receiveDataHandle([](auto, auto, auto) {})
-			, _closeHandle([]() {})
-			, _sendDataHandle([](auto) {})
+			, _receiveDataHandle(std::make_shared<ReceiveDataHandle>([](auto, auto, auto) {}))
+			, _closeHandle(std::make_shared<CloseHandle>([]() {}))
+			, _sendDataHandle(std::make_shared<SendDataHandle>([](auto) {}))
 			, _lastHandleTime(std::chrono::steady_clock::now())
 			, _lastReceiveTime(_lastHandleTime) {
 	}
@@ -55,15 +55,15 @@ namespace eipScanner {
 	}
 
 	void IOConnection::setReceiveDataListener(ReceiveDataHandle handle) {
-		_receiveDataHandle = std::move(handle);
+		_receiveDataHandle = std::make_shared<ReceiveDataHandle>(std::move(handle));
 	}
 
 	void IOConnection::setSendDataListener(SendDataHandle handle) {
-        	_sendDataHandle = std::move(handle);
+        	_sendDataHandle = std::make_shared<SendDataHandle>(std::move(handle));
 	}
 
 	void IOConnection::setCloseListener(CloseHandle handle) {
-		_closeHandle = std::move(handle);
+		_closeHandle = std::make_shared<CloseHandle>(std::move(handle));
 	}
 
 	void IOConnection::notifyReceiveData(const std::vector<uint8_t> &data) {
@@ -93,7 +93,8 @@ namespace eipScanner {
 				<< " bytes were received. Ignore this data.";
 		} else {
 			_lastReceiveTime = std::chrono::steady_clock::now();
-			_receiveDataHandle(runtimeHeader, sequenceValueCount,
+			auto receiveDataHandle = _receiveDataHandle;
+			(*receiveDataHandle)(runtimeHeader, sequenceValueCount,
 							   ioData);
 		}
 	}
@@ -106,7 +107,8 @@ namespace eipScanner {
 		auto periodInMicroS = sinceLastHandle.count();
 		if (now - _lastReceiveTime > _connectionTimeoutMultiplier * std::chrono::microseconds(_t2oAPI)) {
 			Logger(LogLevel::WARNING) << "Connection SeriaNumber=" << _serialNumber << " is closed by timeout";
-			_closeHandle();
+			auto closeHandle = _closeHandle;
+			(*closeHandle)();
 			return false;
 		}
 
@@ -131,7 +133,8 @@ namespace eipScanner {
 			}
 
 			_o2tTimer = 0;
-			_sendDataHandle(_outputData);
+			auto sendDataHandle = _sendDataHandle;
+			(*sendDataHandle)(_outputData);
 			if (_isClosed) {
 				return false; // the listener has closed the connection
 			}
diff --git a/src/IOConnection.h b/src/IOConnection.h
index 5d2371e..8c6fbd7 100644
--- a/src/IOConnection.h
+++ b/src/IOConnection.h
@@ -102,9 +102,10 @@ namespace eipScanner {
 
 		sockets::UDPSocket::UPtr _socket;
 
-		ReceiveDataHandle _receiveDataHandle;
-		CloseHandle _closeHandle;
-		SendDataHandle _sendDataHandle;
+		// shared with the running call, the listeners can replace themselves
+		std::shared_ptr<ReceiveDataHandle> _receiveDataHandle;
+		std::shared_ptr<CloseHandle> _closeHandle;
+		std::shared_ptr<SendDataHandle> _sendDataHandle;
 
 		std::chrono::steady_clock::time_point _lastHandleTime;
 		std::chrono::steady_clock::time_point _lastReceiveTime;
-- 
2.43.0

