From 13c2f81fa09ba0987ab2aa68c073210d4347af6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:34 +0000
Subject: [PATCH 01/42] fix: Message copy assignment must copy the sender and
 reset the empty lists

The sender was kept from the overwritten message, and a list that is empty in
the source left the deleted array behind, to be deleted again later.
---
 src/message.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/message.cpp b/src/message.cpp
index dcddbb4..423aade 100644
--- a/src/message.cpp
+++ b/src/message.cpp
@@ -184,6 +184,7 @@ Message::Message(const Message &other)
 // Copy assignment
 Message& Message::operator=(const Message &other) {
     if (this != &other) {
+        mFrom = other.mFrom;
         // mSubject
         delete[] mSubject;
         size_t subject_len = strlen(other.mSubject);
@@ -197,12 +198,13 @@ Message& Message::operator=(const Message &other) {
         strncpy(mBody, other.mBody, body_len);
         mBody[body_len] = '\0';
         // mTo and mToCount
-        if (mToCount > 0) {
+        if (mTo != nullptr) {
             for (unsigned int i = 0; i < mToCount; i++) {
                 delete mTo[i];
             }
             delete[] mTo;
         }
+        mTo = nullptr;
         if (other.mToCount > 0) {
             mTo = new MessageAddress*[other.mToCount];
             for (unsigned int i = 0; i < other.mToCount; i++) {
@@ -211,12 +213,13 @@ Message& Message::operator=(const Message &other) {
         }
         mToCount = other.mToCount;
         // mCc and mCCCount
-        if (mCCCount > 0) {
+        if (mCc != nullptr) {
             for (unsigned int i = 0; i < mCCCount; i++) {
                 delete mCc[i];
             }
             delete[] mCc;
         }
+        mCc = nullptr;
         if (other.mCCCount > 0) {
             mCc = new MessageAddress*[other.mCCCount];
             for (unsigned int i = 0; i < other.mCCCount; i++) {
@@ -225,12 +228,13 @@ Message& Message::operator=(const Message &other) {
         }
         mCCCount = other.mCCCount;
         // mBcc and mBCCCount
-        if (mBCCCount > 0) {
+        if (mBcc != nullptr) {
             for (unsigned int i = 0; i < mBCCCount; i++) {
                 delete mBcc[i];
             }
             delete[] mBcc;
         }
+        mBcc = nullptr;
         if (other.mBCCCount > 0) {
             mBcc = new MessageAddress*[other.mBCCCount];
             for (unsigned int i = 0; i < other.mBCCCount; i++) {
@@ -239,12 +243,13 @@ Message& Message::operator=(const Message &other) {
         }
         mBCCCount = other.mBCCCount;
         // Attachments and mAttachmentCount
-        if (mAttachmentCount > 0) {
+        if (mAttachments != nullptr) {
             for (unsigned int i = 0; i < mAttachmentCount; i++) {
                 delete mAttachments[i];
             }
             delete[] mAttachments;
         }
+        mAttachments = nullptr;
         if (other.mAttachmentCount > 0) {
             mAttachments = new Attachment*[other.mAttachmentCount];
             for (unsigned int i = 0; i < other.mAttachmentCount; i++) {
-- 
2.43.0


From 42bca383f6a105a11d32afdc4f8defbe2a90690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 02/42] fix: allocate the empty subject and body of a message
 as arrays

They are released with delete[].
---
 src/message.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message.cpp b/src/message.cpp
index 423aade..8dac179 100644
--- a/src/message.cpp
+++ b/src/message.cpp
@@ -42,7 +42,7 @@ Message::Message(const MessageAddress &pFrom,
       mAttachments(nullptr),
       mAttachmentCount(pAttachmentsSize) {
     if (pSubject == nullptr) {
-        mSubject = new char('\0');
+        mSubject = new char[1] { '\0' };
     } else {
         size_t subject_len = strlen(pSubject);
         mSubject = new char[subject_len + 1];
@@ -51,7 +51,7 @@ Message::Message(const MessageAddress &pFrom,
     }
 
     if (pBody == nullptr) {
-        mBody = new char('\0');
+        mBody = new char[1] { '\0' };
     } else {
         size_t body_len = strlen(pBody);
         mBody = new char[body_len + 1];
-- 
2.43.0


From 3138bee5931182e1e84146fa9ffedf847b8f6f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 03/42] fix: setters must accept the object's own current value

setServerName, setCredentials, setUsername, setPassword freed the old value
before copying the argument, which may be that very value. setContentId leaked
the old value.
---
 src/attachment.cpp     |  8 +++++---
 src/credential.cpp     | 18 ++++++++++--------
 src/smtpclientbase.cpp | 12 +++++++-----
 3 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/attachment.cpp b/src/attachment.cpp
index b4c0622..571286a 100644
--- a/src/attachment.cpp
+++ b/src/attachment.cpp
@@ -112,9 +112,11 @@ Attachment& Attachment::operator=(Attachment&& other) noexcept {
 
 void Attachment::setContentId(const char * pContentId) {
     size_t contentid_len = strlen(pContentId);
-    mContentId = new char[contentid_len + 1];
-    strncpy(mContentId, pContentId, contentid_len);
-    mContentId[contentid_len] = '\0';
+    char *new_contentid = new char[contentid_len + 1];
+    strncpy(new_contentid, pContentId, contentid_len);
+    new_contentid[contentid_len] = '\0';
+    delete[] mContentId;
+    mContentId = new_contentid;
 }
 
 const char *Attachment::getName() const {
diff --git a/src/credential.cpp b/src/credential.cpp
index 7f4169e..b7ff389 100644
--- a/src/credential.cpp
+++ b/src/credential.cpp
@@ -127,11 +127,12 @@ void Credential::setUsername(const char *pUsername) {
         throw std::invalid_argument("Username cannot be null or empty");
     }
 
-    delete []mUsername;
     size_t username_len = strlen(pUsername);
-    mUsername = new char[username_len + 1];
-    strncpy(mUsername, pUsername, username_len);
-    mUsername[username_len] = '\0';
+    char *new_username = new char[username_len + 1];
+    strncpy(new_username, pUsername, username_len);
+    new_username[username_len] = '\0';
+    delete []mUsername;
+    mUsername = new_username;
 }
 
 void Credential::setPassword(const char *pPassword) {
@@ -139,11 +140,12 @@ void Credential::setPassword(const char *pPassword) {
         throw std::invalid_argument("Password cannot be null or empty");
     }
 
-    delete []mPassword;
     size_t password_len = strlen(pPassword);
-    mPassword = new char[password_len + 1];
-    strncpy(mPassword, pPassword, password_len);
-    mPassword[password_len] = '\0';
+    char *new_password = new char[password_len + 1];
+    strncpy(new_password, pPassword, password_len);
+    new_password[password_len] = '\0';
+    delete []mPassword;
+    mPassword = new_password;
 }
 
 void Credential::setRecommendedAuthOption(
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 9dbcdcc..b7b0019 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -260,11 +260,12 @@ void SMTPClientBase::setServerName(const char *pServerName) {
     if (pServerName == nullptr || strcmp(pServerName, "") == 0  || StringUtils::trim(servername_str).empty()) {
         throw std::invalid_argument("Server name cannot be null or empty");
     }
-    delete []mServerName;
     size_t server_name_len = strlen(pServerName);
-    mServerName = new char[server_name_len + 1];
-    strncpy(mServerName, pServerName, server_name_len);
-    mServerName[server_name_len] = '\0';
+    char *new_server_name = new char[server_name_len + 1];
+    strncpy(new_server_name, pServerName, server_name_len);
+    new_server_name[server_name_len] = '\0';
+    delete []mServerName;
+    mServerName = new_server_name;
 }
 
 void SMTPClientBase::setBatchMode(bool pEnabled) {
@@ -276,8 +277,9 @@ void SMTPClientBase::setCommandTimeout(unsigned int pTimeOutInSeconds) {
 }
 
 void SMTPClientBase::setCredentials(const Credential &pCredential) {
+    auto *new_credential = new Credential(pCredential);
     delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = new_credential;
 }
 
 void SMTPClientBase::setKeepUsingBaseSendCommands(bool pValue) {
-- 
2.43.0


From d1cdae2f16de03137531f752e289594ff3ac05fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:18 +0000
Subject: [PATCH 04/42] fix: report the error code of
 setSocketToNonBlockingPOSIX

The comparison bound tighter than the assignment, so that 1 was returned.
---
 src/smtpclientbase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index b7b0019..4decb26 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -519,7 +519,7 @@ int SMTPClientBase::initializeSessionPOSIX() {
            host->h_addr,
            static_cast<size_t>(host->h_length));
     // Set non-blocking
-    if (int socketSetFlagsResult = setSocketToNonBlockingPOSIX() != 0) {
+    if (int socketSetFlagsResult = setSocketToNonBlockingPOSIX()) {
         return socketSetFlagsResult;
     }
     std::stringstream ss;
-- 
2.43.0


From 3b36ed99f10cefa591d443c1e263179b58ddb421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:23 +0000
Subject: [PATCH 05/42] fix: no crash when credentials are set but the server
 offers no AUTH

The authentication options are null in that case.
---
 src/smtpclientbase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 4decb26..1b49530 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -761,6 +761,10 @@ void SMTPClientBase::setLastServerResponse(const char *pResponse) {
 
 int SMTPClientBase::authenticateClient() {
     if (mCredential != nullptr) {
+        // The server may not have advertised any authentication method
+        if (mAuthOptions == nullptr) {
+            return CLIENT_AUTHENTICATION_METHOD_NOTSUPPORTED;
+        }
         auto recommenedAuthOption = mCredential->getRecommendedAuthOption();
         if (mAuthOptions->Plain
             && (recommenedAuthOption == RecommendedAuthenticationMethod::kImplicit
-- 
2.43.0


From 6aba75de681e42cb3a13f1a78f7ab8be1a250257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 06/42] fix: a malformed reply code must not be taken for a
 result code

Replies starting with 000, a sign or a blank were converted by stoi: 000 was
then reported as a success, -86 as a timeout of the client.
---
 src/smtpclientbase.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 1b49530..cdd03a5 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1073,12 +1073,10 @@ std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*>
 
 int SMTPClientBase::extractReturnCode(const char *pOutput) {
     if (pOutput != nullptr && strlen(pOutput) >= 3) {
-        std::string code_str { pOutput };
-        try {
-            return std::stoi(code_str.substr(0, 3));
-        }
-        catch (std::exception const &) {
-            return -1;
+        std::string code_str { std::string(pOutput).substr(0, 3) };
+        // A reply code is made of three digits, the first of which is not zero
+        if (code_str.find_first_not_of("0123456789") == std::string::npos && code_str[0] != '0') {
+            return std::stoi(code_str);
         }
     }
     return -1;
-- 
2.43.0


From baa5fbc63a1ed326adaf4926914f7f779da2a579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 07/42] fix: report a timeout within the LOGIN dialogue as an
 authentication timeout

---
 src/smtpclientbase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index cdd03a5..3d531dd 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -806,7 +806,7 @@ int SMTPClientBase::authenticateWithMethodLogin() {
             CLIENT_AUTHENTICATE_ERROR,
             CLIENT_AUTHENTICATE_TIMEOUT);
     if (login_return_code != STATUS_CODE_SERVER_CHALLENGE) {
-        return CLIENT_AUTHENTICATE_ERROR;
+        return login_return_code == CLIENT_AUTHENTICATE_TIMEOUT ? CLIENT_AUTHENTICATE_TIMEOUT : CLIENT_AUTHENTICATE_ERROR;
     }
 
     std::string encoded_username { Base64::Encode(reinterpret_cast<const unsigned char*>(mCredential->getUsername()),
@@ -817,7 +817,7 @@ int SMTPClientBase::authenticateWithMethodLogin() {
             CLIENT_AUTHENTICATE_ERROR,
             CLIENT_AUTHENTICATE_TIMEOUT);
     if (username_return_code != STATUS_CODE_SERVER_CHALLENGE) {
-        return CLIENT_AUTHENTICATE_ERROR;
+        return username_return_code == CLIENT_AUTHENTICATE_TIMEOUT ? CLIENT_AUTHENTICATE_TIMEOUT : CLIENT_AUTHENTICATE_ERROR;
     }
     std::string encoded_password { Base64::Encode(reinterpret_cast<const unsigned char*>(mCredential->getPassword()),
             strlen(mCredential->getPassword())) };
-- 
2.43.0


From 654f9b1bd3a47cbe1b7f88be5b275c341bc86b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 08/42] fix: stop using the connection after it was lost at
 RCPT TO or the To/Cc headers

The transaction went on with descriptor 0 and, for the secure clients, outside
of the TLS session.
---
 src/smtpclientbase.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 3d531dd..1a63605 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -889,6 +889,10 @@ int SMTPClientBase::setMailRecipients(const Message &pMsg) {
 int SMTPClientBase::addMailRecipients(jed_utils::MessageAddress **list, size_t count, const int RECIPIENT_OK) {
     int rcpt_to_ret_code = RECIPIENT_OK;
     std::for_each(list, list + count, [this, &rcpt_to_ret_code, &RECIPIENT_OK](MessageAddress *address) {
+            // The connection is gone after an error or a timeout
+            if (!mIsConnected) {
+            return;
+            }
             std::stringstream ss_rcpt_to;
             ss_rcpt_to << "RCPT TO: <"s << address->getEmailAddress() << ">\r\n"s;
             addCommunicationLogItem(ss_rcpt_to.str().c_str());
@@ -926,13 +930,19 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
     // To
     if (pMsg.getToCount() > 0) {
         std::vector<MessageAddress*> toAddrs(pMsg.getTo(), pMsg.getTo() + pMsg.getToCount());
-        addMailHeader("To", generateHeaderAddressValues(toAddrs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        int header_to_ret_code = addMailHeader("To", generateHeaderAddressValues(toAddrs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        if (header_to_ret_code != 0) {
+            return header_to_ret_code;
+        }
     }
 
     // Cc
     if (pMsg.getCcCount() > 0) {
         std::vector<MessageAddress*> toCcs(pMsg.getCc(), pMsg.getCc() + pMsg.getCcCount());
-        addMailHeader("Cc", generateHeaderAddressValues(toCcs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        int header_cc_ret_code = addMailHeader("Cc", generateHeaderAddressValues(toCcs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        if (header_cc_ret_code != 0) {
+            return header_cc_ret_code;
+        }
     }
 
     // Subject
-- 
2.43.0


From 23de329de6dd5077f135af1076d1d90dfa9859c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 09/42] fix: partial sends and SIGPIPE on the unencrypted
 connection

A send on a connection closed by the server terminated the process, and a
partial send lost the rest of the command.
---
 src/smtpclientbase.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 1a63605..807f0e9 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -36,6 +36,10 @@
     #include <unistd.h>
 #endif
 
+#ifndef MSG_NOSIGNAL
+    #define MSG_NOSIGNAL 0
+#endif
+
 using namespace std::literals::string_literals;
 using namespace jed_utils;
 
@@ -677,11 +681,17 @@ int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode) {
 #else
     size_t commandSize = strlen(pCommand);
 #endif
-    if (send(mSock, pCommand, commandSize, 0) == -1) {
-        setLastSocketErrNo(errno);
-        cleanup();
-        return pErrorCode;
-    }
+    // The command may be accepted by the socket in several pieces
+    do {
+        auto bytes_sent = send(mSock, pCommand, commandSize, MSG_NOSIGNAL);
+        if (bytes_sent == -1) {
+            setLastSocketErrNo(errno);
+            cleanup();
+            return pErrorCode;
+        }
+        pCommand += bytes_sent;
+        commandSize -= bytes_sent;
+    } while (commandSize > 0);
     return 0;
 }
 
-- 
2.43.0


From 78806c271902c6d5870e34e90e6f5814189b972a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:06 +0000
Subject: [PATCH 10/42] fix: read whole server replies, within the command
 timeout

A reply was whatever had arrived at the first look: the rest of a split reply
was taken for the reply to the next command, capabilities after the first
segment of the EHLO answer were ignored or never recognized as complete, and
1024 bytes overflowed the buffer. The greeting and the replies over TLS were
read with blocking calls, that a silent server could hold forever, and a
timeout of one second expired without looking again.
---
 src/forcedsecuresmtpclient.cpp | 21 ++++-------
 src/securesmtpclientbase.cpp   | 43 ++++++++++------------
 src/smtpclientbase.cpp         | 65 +++++++++++++---------------------
 src/smtpclientbase.h           |  1 +
 4 files changed, 50 insertions(+), 80 deletions(-)

diff --git a/src/forcedsecuresmtpclient.cpp b/src/forcedsecuresmtpclient.cpp
index e8bf919..8fb3b6b 100644
--- a/src/forcedsecuresmtpclient.cpp
+++ b/src/forcedsecuresmtpclient.cpp
@@ -79,22 +79,13 @@ int ForcedSecureSMTPClient::establishConnectionWithServer() {
 }
 
 int ForcedSecureSMTPClient::checkServerGreetings() {
-    char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
-    unsigned int waitTime = 0;
-    ssize_t bytes_received = 0;
-    while ((bytes_received = BIO_read(getBIO(), outbuf, SERVERRESPONSE_BUFFER_LENGTH)) <= 0 && waitTime < getCommandTimeout()) {
-        crossPlatformSleep(1);
-        waitTime += 1;
+    int status_code = getServerReply();
+    if (status_code == -1) {
+        return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
     }
-    if (waitTime < getCommandTimeout()) {
-        outbuf[bytes_received-1] = '\0';
-        addCommunicationLogItem(outbuf, "s");
-        int status_code = extractReturnCode(outbuf);
-        if (status_code == STATUS_CODE_SERVICE_READY) {
-            addCommunicationLogItem("Connected!");
-        }
-        return status_code;
+    if (status_code == STATUS_CODE_SERVICE_READY) {
+        addCommunicationLogItem("Connected!");
     }
-    return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
+    return status_code;
 }
 
diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 923cbd9..9d0f40e 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -3,7 +3,6 @@
 #include <openssl/x509_vfy.h>
 #include <string>
 #include <utility>
-#include "serveroptionsanalyzer.h"
 #include "smtpclienterrors.h"
 #include "socketerrors.h"
 #include "sslerrors.h"
@@ -268,20 +267,8 @@ int SecureSMTPClientBase::getServerSecureIdentification() {
     if (tls_command_return_code != EHLO_SUCCESS_CODE) {
         return tls_command_return_code;
     }
-    std::string returnedOptions = getLastServerResponse();
-    // Check that the last returned option has no hyphen otherwise options are
-    // still missing from the server.
-    while (!ServerOptionsAnalyzer::containsAllOptions(returnedOptions)) {
-        int replyCode = getServerReply();
-        if (replyCode == -1) {
-            return SSL_CLIENT_INITSECURECLIENT_TIMEOUT;
-        } else if (replyCode != EHLO_SUCCESS_CODE) {
-            return replyCode;
-        }
-        returnedOptions += "\n" + std::string(getLastServerResponse());
-    }
     // Inspect the returned values for authentication options
-    setAuthenticationOptions(SMTPClientBase::extractAuthenticationOptions(returnedOptions.c_str()));
+    setAuthenticationOptions(SMTPClientBase::extractAuthenticationOptions(getLastServerResponse()));
     return EHLO_SUCCESS_CODE;
 }
 
@@ -315,18 +302,26 @@ int SecureSMTPClientBase::sendCommandWithFeedback(const char *pCommand, int pErr
 }
 
 int SecureSMTPClientBase::getServerReply() {
+    std::string fullResponse;
     unsigned int waitTime {0};
-    int bytes_received {0};
     char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
-    while ((bytes_received = BIO_read(mBIO, outbuf, SERVERRESPONSE_BUFFER_LENGTH)) <= 0 && waitTime < getCommandTimeout()) {
-        crossPlatformSleep(1);
-        waitTime += 1;
+    setSocketToNonBlocking();
+    while (!isReplyComplete(fullResponse)) {
+        int bytes_received = BIO_read(mBIO, outbuf, SERVERRESPONSE_BUFFER_LENGTH);
+        if (bytes_received > 0) {
+            fullResponse.append(outbuf, static_cast<size_t>(bytes_received));
+        } else {
+            if (waitTime >= getCommandTimeout()) {
+                break;
+            }
+            crossPlatformSleep(1);
+            waitTime += 1;
+        }
     }
-    if (waitTime < getCommandTimeout()) {
-        outbuf[bytes_received-1] = '\0';
-        setLastServerResponse(outbuf);
-        addCommunicationLogItem(outbuf, "s");
-        return extractReturnCode(outbuf);
+    setSocketToBlocking();
+    if (!fullResponse.empty()) {
+        setLastServerResponse(fullResponse.c_str());
+        addCommunicationLogItem(fullResponse.c_str(), "s");
     }
-    return -1;
+    return isReplyComplete(fullResponse) ? extractReturnCode(fullResponse.c_str()) : -1;
 }
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 807f0e9..015ef01 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -14,7 +14,6 @@
 #include "message.h"
 #include "messageaddress.h"
 #include "serverauthoptions.h"
-#include "serveroptionsanalyzer.h"
 #include "smtpclienterrors.h"
 #include "smtpserverstatuscodes.h"
 #include "socketerrors.h"
@@ -633,42 +632,20 @@ int SMTPClientBase::sendServerIdentification() {
     if (command_return_code != EHLO_SUCCESS_CODE) {
         return command_return_code;
     }
-    std::string returnedOptions = getLastServerResponse();
-    // Check that the last returned option has no hyphen otherwise options are
-    // still missing from the server.
-    while (!ServerOptionsAnalyzer::containsAllOptions(returnedOptions)) {
-        int replyCode = getServerReply();
-        if (replyCode == -1) {
-            return SOCKET_INIT_CLIENT_SEND_EHLO_TIMEOUT;
-        } else if (replyCode != EHLO_SUCCESS_CODE) {
-            return replyCode;
-        }
-        returnedOptions += "\n" + std::string(getLastServerResponse());
-    }
     // Inspect the returned values for authentication options
-    setAuthenticationOptions(extractAuthenticationOptions(returnedOptions.c_str()));
+    setAuthenticationOptions(extractAuthenticationOptions(getLastServerResponse()));
     return EHLO_SUCCESS_CODE;
 }
 
 int SMTPClientBase::checkServerGreetings() {
-    char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
-    unsigned int waitTime = 0;
-    ssize_t bytes_received = 0;
-    while ((bytes_received = recv(mSock, outbuf, SERVERRESPONSE_BUFFER_LENGTH, 0)) <= 0
-            && waitTime < mCommandTimeOut) {
-        crossPlatformSleep(1);
-        waitTime += 1;
-    }
-    if (waitTime < mCommandTimeOut) {
-        outbuf[bytes_received-1] = '\0';
-        addCommunicationLogItem(outbuf, "s");
-        int status_code = extractReturnCode(outbuf);
-        if (status_code == STATUS_CODE_SERVICE_READY) {
-            addCommunicationLogItem("Connected!");
-        }
-        return status_code;
+    int status_code = getRawCommandReply();
+    if (status_code == -1) {
+        return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
+    }
+    if (status_code == STATUS_CODE_SERVICE_READY) {
+        addCommunicationLogItem("Connected!");
     }
-    return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
+    return status_code;
 }
 
 int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode) {
@@ -697,32 +674,28 @@ int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode) {
 
 int SMTPClientBase::getRawCommandReply() {
     std::string fullResponse;
-    bool receivedAtLeastOnce = false;
     char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
     unsigned int waitTime {0};
     setSocketToNonBlocking();
 
-    do {
+    while (true) {
         ssize_t bytes_received = recv(mSock, outbuf, SERVERRESPONSE_BUFFER_LENGTH, 0);
         if (bytes_received > 0) {
-            receivedAtLeastOnce = true;
-            outbuf[bytes_received] = '\0';  // Null-terminate the received data
-            fullResponse += outbuf;
+            fullResponse.append(outbuf, static_cast<size_t>(bytes_received));
         } else {
-            if (bytes_received == -1 && receivedAtLeastOnce) {
+            if (isReplyComplete(fullResponse) || waitTime >= mCommandTimeOut) {
                 break;
             }
             crossPlatformSleep(1);
             waitTime += 1;
         }
-    } while (waitTime < mCommandTimeOut);
+    }
     setSocketToBlocking();
-    if (waitTime < mCommandTimeOut || receivedAtLeastOnce) {
+    if (!fullResponse.empty()) {
         setLastServerResponse(fullResponse.c_str());
         addCommunicationLogItem(fullResponse.c_str(), "s");
-        return extractReturnCode(fullResponse.c_str());
     }
-    return -1;
+    return isReplyComplete(fullResponse) ? extractReturnCode(fullResponse.c_str()) : -1;
 }
 
 int SMTPClientBase::getServerReply() {
@@ -1091,6 +1064,16 @@ std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*>
     return retval;
 }
 
+bool SMTPClientBase::isReplyComplete(const std::string &pReply) {
+    if (pReply.empty() || pReply.back() != '\n') {
+        return false;
+    }
+    // All the lines of a reply but the last one have an hyphen after the code
+    size_t last_line_start = pReply.rfind('\n', pReply.length() - 2);
+    last_line_start = last_line_start == std::string::npos ? 0 : last_line_start + 1;
+    return pReply.length() - last_line_start < 4 || pReply[last_line_start + 3] != '-';
+}
+
 int SMTPClientBase::extractReturnCode(const char *pOutput) {
     if (pOutput != nullptr && strlen(pOutput) >= 3) {
         std::string code_str { std::string(pOutput).substr(0, 3) };
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index 80f420e..97c27c8 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -199,6 +199,7 @@ class SMTPCLIENTBASE_API SMTPClientBase {
 
     void addCommunicationLogItem(const char *pItem, const char *pPrefix = "c");
     static std::string createAttachmentsText(const std::vector<Attachment*> &pAttachments);
+    static bool isReplyComplete(const std::string &pReply);
     static int extractReturnCode(const char *pOutput);
     static ServerAuthOptions *extractAuthenticationOptions(const char *pEhloOutput);
     static std::string generateHeaderAddressValues(const std::vector<jed_utils::MessageAddress *> &pList);
-- 
2.43.0


From b00ebd0d8253eee7a292ad69a7da9a4695fe64b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:28 +0000
Subject: [PATCH 11/42] fix: bound the TLS handshake and the sends by the
 command timeout

They waited forever for a server that stopped answering or reading.
---
 src/smtpclientbase.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 015ef01..4cb9c34 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -569,6 +569,15 @@ int SMTPClientBase::initializeSessionPOSIX() {
             return SOCKET_INIT_SESSION_CONNECT_ERROR;
         }
     }
+    // The TLS handshake and the sends must not wait for the server forever
+    tv.tv_sec = mCommandTimeOut;
+    tv.tv_usec = 0;
+    if (setsockopt(mSock, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv)) < 0
+            || setsockopt(mSock, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv)) < 0) {
+        setLastSocketErrNo(errno);
+        addCommunicationLogItem(strerror(errno));
+        return SOCKET_INIT_SESSION_GET_SOCKET_OPTIONS_ERROR;
+    }
     // Set to blocking mode again...
     return setSocketToBlockingPOSIX();
 }
-- 
2.43.0


From 570b63f6de9cdab3dddfe9a1a52322717a8cdb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 12/42] fix: detect STARTTLS on the last line of the EHLO
 response and in any letter case

The communication remained unencrypted although the server offered STARTTLS.
---
 src/opportunisticsecuresmtpclient.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/opportunisticsecuresmtpclient.cpp b/src/opportunisticsecuresmtpclient.cpp
index aeba3d9..14aff81 100644
--- a/src/opportunisticsecuresmtpclient.cpp
+++ b/src/opportunisticsecuresmtpclient.cpp
@@ -109,6 +109,8 @@ bool OpportunisticSecureSMTPClient::isStartTLSSupported(const char *pServerRespo
         return false;
     }
 
-    const std::string STARTTLS_LINE_PREFIX { "250-STARTTLS" };
-    return serverResponse.find(STARTTLS_LINE_PREFIX) != std::string::npos;
+    // It may be any line of the response, the last one included (without an hyphen)
+    serverResponse = StringUtils::toUpper(serverResponse);
+    return serverResponse.find("250-STARTTLS") != std::string::npos ||
+        serverResponse.find("250 STARTTLS") != std::string::npos;
 }
-- 
2.43.0


From 8bd15f9a59bb2bec8448ff4e8c4c1e22d50a4a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:36 +0000
Subject: [PATCH 13/42] fix: EHLO keywords and authentication mechanisms are
 case-insensitive

---
 src/smtpclientbase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 4cb9c34..592c88d 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1098,7 +1098,7 @@ ServerAuthOptions *ParseAuthenticationOptions(const std::string &authLine) {
     ServerAuthOptions *retval = nullptr;
     const std::string AUTH_LINE_PREFIX = "250-AUTH";
     const std::string AUTH_LINE_PREFIX_ALTERNATE = "250 AUTH";
-    std::string line = authLine;
+    std::string line = StringUtils::toUpper(authLine);
     // Find the line that begin with 250-AUTH or 250 AUTH
     if (line.substr(0, AUTH_LINE_PREFIX.length()) == AUTH_LINE_PREFIX ||
         line.substr(0, AUTH_LINE_PREFIX_ALTERNATE.length()) == AUTH_LINE_PREFIX_ALTERNATE) {
-- 
2.43.0


From 1ab12caa4e8dad31f5332bb1af3e8d6282580d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:38 +0000
Subject: [PATCH 14/42] fix: use the TLS session even if a previous session
 remained unencrypted

The credentials and the message of the later session were sent in clear.
---
 src/securesmtpclientbase.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 9d0f40e..9865e0f 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -248,6 +248,8 @@ int SecureSMTPClientBase::startTLSNegotiation() {
     }
 
     addCommunicationLogItem("TLS session ready!");
+    // A previous session of this client may have remained unencrypted
+    setKeepUsingBaseSendCommands(false);
 
 #ifdef _WIN32
     CertFreeCertificateContext(pContext);
-- 
2.43.0


From 0fd50010ea9ac9e54ea0e3e7e6a72ff948f5f893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:02 +0000
Subject: [PATCH 15/42] fix: endless recursion in cleanup when QUIT cannot be
 sent in batch mode

---
 src/securesmtpclientbase.cpp | 6 ++++--
 src/smtpclient.cpp           | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 9865e0f..92234fc 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -101,10 +101,12 @@ void SecureSMTPClientBase::setAcceptSelfSignedCert(bool pValue) {
 }
 
 void SecureSMTPClientBase::cleanup() {
-    if (getBatchMode() && mIsConnected) {
+    const bool quitNeeded { getBatchMode() && mIsConnected };
+    // Reset first: a failure to send the QUIT command cleans up too
+    mIsConnected = false;
+    if (quitNeeded) {
         sendQuitCommand();
     }
-    mIsConnected = false;
     if (mCTX != nullptr) {
         SSL_CTX_free(mCTX);
     }
diff --git a/src/smtpclient.cpp b/src/smtpclient.cpp
index 15c7594..b64c2f6 100644
--- a/src/smtpclient.cpp
+++ b/src/smtpclient.cpp
@@ -45,10 +45,12 @@ SmtpClient& SmtpClient::operator=(SmtpClient &&other) noexcept {
 }
 
 void SmtpClient::cleanup() {
-    if (getBatchMode() && mIsConnected) {
+    const bool quitNeeded { getBatchMode() && mIsConnected };
+    // Reset first: a failure to send the QUIT command cleans up too
+    mIsConnected = false;
+    if (quitNeeded) {
         sendQuitCommand();
     }
-    mIsConnected = false;
     int socket { getSocketFileDescriptor() };
     if (socket != 0) {
 #ifdef _WIN32
-- 
2.43.0


From 51309715612d088a84b265804f3796141db0049b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:07 +0000
Subject: [PATCH 16/42] fix: end the session when a send fails

The connection stayed open, or leaked if it was not established yet, and the
next message was sent within the failed transaction.
---
 src/smtpclientbase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 592c88d..2d1ac0b 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -350,6 +350,7 @@ int SMTPClientBase::sendMail(const Message &pMsg) {
     if (!mIsConnected) {
         int client_connect_ret_code = establishConnectionWithServer();
         if (client_connect_ret_code != 0) {
+            cleanup();
             return client_connect_ret_code;
         }
     }
@@ -357,16 +358,19 @@ int SMTPClientBase::sendMail(const Message &pMsg) {
 
     int set_mail_recipients_ret_code = setMailRecipients(pMsg);
     if (set_mail_recipients_ret_code != 0) {
+        cleanup();
         return set_mail_recipients_ret_code;
     }
 
     int set_mail_headers_ret_code = setMailHeaders(pMsg);
     if (set_mail_headers_ret_code != 0) {
+        cleanup();
         return set_mail_headers_ret_code;
     }
 
     int set_mail_body_ret_code = setMailBody(pMsg);
     if (set_mail_body_ret_code != 0) {
+        cleanup();
         return set_mail_body_ret_code;
     }
 
-- 
2.43.0


From ba99992519c9a4cda92dc2d13e31ef47f35d33e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 17/42] fix: descriptor 0 is a valid socket

A process that closed its standard input got it for its connection, which was
then never closed.
---
 src/securesmtpclientbase.cpp |  2 +-
 src/smtpclient.cpp           |  2 +-
 src/smtpclientbase.cpp       | 10 +++++-----
 src/smtpclientbase.h         |  2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 92234fc..c1276c5 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -116,7 +116,7 @@ void SecureSMTPClientBase::cleanup() {
     }
     mBIO = nullptr;
     int socketFileDescriptor {getSocketFileDescriptor() };
-    if (socketFileDescriptor != 0) {
+    if (socketFileDescriptor != -1) {
 #ifdef _WIN32
         shutdown(socketFileDescriptor, SD_BOTH);
         closesocket(socketFileDescriptor);
diff --git a/src/smtpclient.cpp b/src/smtpclient.cpp
index b64c2f6..d5ee56b 100644
--- a/src/smtpclient.cpp
+++ b/src/smtpclient.cpp
@@ -52,7 +52,7 @@ void SmtpClient::cleanup() {
         sendQuitCommand();
     }
     int socket { getSocketFileDescriptor() };
-    if (socket != 0) {
+    if (socket != -1) {
 #ifdef _WIN32
         shutdown(socket, SD_BOTH);
         closesocket(socket);
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 2d1ac0b..88a8ac1 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -92,7 +92,7 @@ SMTPClientBase::SMTPClientBase(const SMTPClientBase& other)
       mLastSocketErrNo(other.mLastSocketErrNo),
       mAuthOptions(other.mAuthOptions != nullptr ? new ServerAuthOptions(*other.mAuthOptions) : nullptr),
       mCredential(other.mCredential != nullptr ? new Credential(*other.mCredential) : nullptr),
-      mSock(0),
+      mSock(-1),
       mKeepUsingBaseSendCommands(other.mKeepUsingBaseSendCommands),
       sendCommandPtr(&SMTPClientBase::sendCommand),
       sendCommandWithFeedbackPtr(&SMTPClientBase::sendCommandWithFeedback) {
@@ -149,7 +149,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
         // mCredential
         mCredential = other.mCredential != nullptr ? new Credential(*other.mCredential) : nullptr;
         mIsConnected = false;
-        mSock = 0;
+        mSock = -1;
         setKeepUsingBaseSendCommands(other.mKeepUsingBaseSendCommands);
     }
     return *this;
@@ -183,7 +183,7 @@ SMTPClientBase::SMTPClientBase(SMTPClientBase&& other) noexcept
     other.mAuthOptions = nullptr;
     other.mCredential = nullptr;
     other.mIsConnected = false;
-    other.mSock = 0;
+    other.mSock = -1;
     other.mKeepUsingBaseSendCommands = false;
     setKeepUsingBaseSendCommands(mKeepUsingBaseSendCommands);
 }
@@ -224,7 +224,7 @@ SMTPClientBase& SMTPClientBase::operator=(SMTPClientBase&& other) noexcept {
         other.mAuthOptions = nullptr;
         other.mCredential = nullptr;
         other.mIsConnected = false;
-        other.mSock = 0;
+        other.mSock = -1;
         other.mKeepUsingBaseSendCommands = false;
     }
     return *this;
@@ -301,7 +301,7 @@ int SMTPClientBase::getSocketFileDescriptor() const {
 }
 
 void SMTPClientBase::clearSocketFileDescriptor() {
-    mSock = 0;
+    mSock = -1;
 }
 
 const char *SMTPClientBase::getLastServerResponse() const {
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index 97c27c8..41e74c1 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -215,7 +215,7 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     int mLastSocketErrNo;
     ServerAuthOptions *mAuthOptions;
     Credential *mCredential;
-    int mSock = 0;
+    int mSock = -1;
     #ifdef _WIN32
     bool mWSAStarted = false;
     #endif
-- 
2.43.0


From e08ead8dcf1927a5ec7bd8ddb0b0058e3b8d4d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 18/42] fix: assigning to a client ends its connection

The connection of the overwritten client was leaked, without QUIT in batch
mode, along with its log, last response and credentials.
---
 src/securesmtpclientbase.cpp | 3 ++-
 src/smtpclientbase.cpp       | 7 +++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index c1276c5..2ace7af 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -76,6 +76,8 @@ SecureSMTPClientBase::SecureSMTPClientBase(SecureSMTPClientBase&& other) noexcep
 // Move assignement operator
 SecureSMTPClientBase& SecureSMTPClientBase::operator=(SecureSMTPClientBase&& other) noexcept {
     if (this != &other) {
+        // Ends the connection of this client, with its own TLS session
+        SMTPClientBase::operator=(std::move(other));
         // Copy the data pointer and its length from the source object.
         mBIO = other.mBIO;
         mCTX = other.mCTX;
@@ -87,7 +89,6 @@ SecureSMTPClientBase& SecureSMTPClientBase::operator=(SecureSMTPClientBase&& oth
         other.mCTX = nullptr;
         other.mSSL = nullptr;
         other.mAcceptSelfSignedCert = false;
-        SMTPClientBase::operator=(std::move(other));
     }
     return *this;
 }
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 88a8ac1..8b5cfdf 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -116,6 +116,8 @@ SMTPClientBase::SMTPClientBase(const SMTPClientBase& other)
 // Assignment operator
 SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
     if (this != &other) {
+        // End the connection of this client
+        cleanup();
         // mServerName
         delete[] mServerName;
         size_t server_name_len = strlen(other.mServerName);
@@ -127,6 +129,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
         // mBatchMode
         mBatchMode = other.mBatchMode;
         // mCommunicationLog
+        delete[] mCommunicationLog;
         mCommunicationLog = other.mCommunicationLog != nullptr ? new char[strlen(other.mCommunicationLog) + 1]: nullptr;
         if (mCommunicationLog != nullptr) {
             size_t communication_log_len = strlen(other.mCommunicationLog);
@@ -135,6 +138,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
         }
         mCommunicationLogSize = other.mCommunicationLogSize;
         // mLastServerResponse
+        delete[] mLastServerResponse;
         mLastServerResponse = other.mLastServerResponse != nullptr ? new char[strlen(other.mLastServerResponse) + 1]: nullptr;
         if (mLastServerResponse != nullptr) {
             size_t last_server_response_len = strlen(other.mLastServerResponse);
@@ -147,6 +151,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
         delete mAuthOptions;
         mAuthOptions = other.mAuthOptions != nullptr ? new ServerAuthOptions(*other.mAuthOptions) : nullptr;
         // mCredential
+        delete mCredential;
         mCredential = other.mCredential != nullptr ? new Credential(*other.mCredential) : nullptr;
         mIsConnected = false;
         mSock = -1;
@@ -191,6 +196,8 @@ SMTPClientBase::SMTPClientBase(SMTPClientBase&& other) noexcept
 // Move assignement operator
 SMTPClientBase& SMTPClientBase::operator=(SMTPClientBase&& other) noexcept {
     if (this != &other) {
+        // End the connection of this client
+        cleanup();
         delete[] mServerName;
         delete[] mCommunicationLog;
         delete[] mLastServerResponse;
-- 
2.43.0


From beca227e8033ec70b5c08c32c51cf4d5c847fc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 19/42] fix: credentials of copied C++ clients

Copies shared the credential object of the original without owning it: it
dangled as soon as either of them was given other credentials, and it was never
released.
---
 src/cpp/forcedsecuresmtpclient.cpp        | 5 ++---
 src/cpp/forcedsecuresmtpclient.hpp        | 3 ++-
 src/cpp/opportunisticsecuresmtpclient.cpp | 5 ++---
 src/cpp/opportunisticsecuresmtpclient.hpp | 3 ++-
 src/cpp/smtpclient.cpp                    | 5 ++---
 src/cpp/smtpclient.hpp                    | 3 ++-
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/cpp/forcedsecuresmtpclient.cpp b/src/cpp/forcedsecuresmtpclient.cpp
index f1cc91d..4548b8c 100644
--- a/src/cpp/forcedsecuresmtpclient.cpp
+++ b/src/cpp/forcedsecuresmtpclient.cpp
@@ -28,7 +28,7 @@ std::string ForcedSecureSMTPClient::getCommunicationLog() const {
 }
 
 const Credential *ForcedSecureSMTPClient::getCredentials() const {
-    return mCredential;
+    return mCredential.get();
 }
 
 bool ForcedSecureSMTPClient::getAcceptSelfSignedCert() const {
@@ -55,8 +55,7 @@ void ForcedSecureSMTPClient::setCredentials(const Credential &pCredential) {
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
                                                                     pCredential.getPassword().c_str(),
                                                                     pCredential.getRecommendedAuthOption()));
-    delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = std::make_shared<const Credential>(pCredential);
 }
 
 void ForcedSecureSMTPClient::setAcceptSelfSignedCert(bool pValue) {
diff --git a/src/cpp/forcedsecuresmtpclient.hpp b/src/cpp/forcedsecuresmtpclient.hpp
index 949c035..867e0c7 100644
--- a/src/cpp/forcedsecuresmtpclient.hpp
+++ b/src/cpp/forcedsecuresmtpclient.hpp
@@ -2,6 +2,7 @@
 #define CPPFORCEDSECURESMTPCLIENT_H
 
 #include "credential.hpp"
+#include <memory>
 #include "../forcedsecuresmtpclient.h"
 
 #ifdef _WIN32
@@ -150,7 +151,7 @@ class CPP_FORCEDSECURESMTPCLIENT_API ForcedSecureSMTPClient : private jed_utils:
     static jed_utils::ServerAuthOptions *extractAuthenticationOptions(const std::string &pEhloOutput);
 
  private:
-    Credential* mCredential = nullptr;
+    std::shared_ptr<const Credential> mCredential;
 };
 }  // namespace cpp
 }  // namespace jed_utils
diff --git a/src/cpp/opportunisticsecuresmtpclient.cpp b/src/cpp/opportunisticsecuresmtpclient.cpp
index 2932cfe..5fcbe64 100644
--- a/src/cpp/opportunisticsecuresmtpclient.cpp
+++ b/src/cpp/opportunisticsecuresmtpclient.cpp
@@ -28,7 +28,7 @@ std::string OpportunisticSecureSMTPClient::getCommunicationLog() const {
 }
 
 const Credential *OpportunisticSecureSMTPClient::getCredentials() const {
-    return mCredential;
+    return mCredential.get();
 }
 
 bool OpportunisticSecureSMTPClient::getAcceptSelfSignedCert() const {
@@ -55,8 +55,7 @@ void OpportunisticSecureSMTPClient::setCredentials(const Credential &pCredential
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
                                                                     pCredential.getPassword().c_str(),
                                                                     pCredential.getRecommendedAuthOption()));
-    delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = std::make_shared<const Credential>(pCredential);
 }
 
 void OpportunisticSecureSMTPClient::setAcceptSelfSignedCert(bool pValue) {
diff --git a/src/cpp/opportunisticsecuresmtpclient.hpp b/src/cpp/opportunisticsecuresmtpclient.hpp
index 8ed476b..f1f706d 100644
--- a/src/cpp/opportunisticsecuresmtpclient.hpp
+++ b/src/cpp/opportunisticsecuresmtpclient.hpp
@@ -2,6 +2,7 @@
 #define CPPOPPORTUNISTICSECURESMTPCLIENT_H
 
 #include "credential.hpp"
+#include <memory>
 #include "../opportunisticsecuresmtpclient.h"
 
 #ifdef _WIN32
@@ -150,7 +151,7 @@ class CPP_OPPORTUNISTICSECURESMTPCLIENT_API OpportunisticSecureSMTPClient : priv
     static jed_utils::ServerAuthOptions *extractAuthenticationOptions(const std::string &pEhloOutput);
 
  private:
-    Credential* mCredential = nullptr;
+    std::shared_ptr<const Credential> mCredential;
 };
 }  // namespace cpp
 }  // namespace jed_utils
diff --git a/src/cpp/smtpclient.cpp b/src/cpp/smtpclient.cpp
index 1a1d80a..3469c93 100644
--- a/src/cpp/smtpclient.cpp
+++ b/src/cpp/smtpclient.cpp
@@ -28,7 +28,7 @@ std::string SmtpClient::getCommunicationLog() const {
 }
 
 const Credential *SmtpClient::getCredentials() const {
-    return mCredential;
+    return mCredential.get();
 }
 
 void SmtpClient::setServerName(const std::string &pServerName) {
@@ -50,8 +50,7 @@ void SmtpClient::setCommandTimeout(unsigned int pTimeOutInSeconds) {
 void SmtpClient::setCredentials(const Credential &pCredential) {
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
                                                                     pCredential.getPassword().c_str()));
-    delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = std::make_shared<const Credential>(pCredential);
 }
 
 void SmtpClient::setKeepUsingBaseSendCommands(bool pValue) {
diff --git a/src/cpp/smtpclient.hpp b/src/cpp/smtpclient.hpp
index bc3a922..8ed4abe 100644
--- a/src/cpp/smtpclient.hpp
+++ b/src/cpp/smtpclient.hpp
@@ -1,6 +1,7 @@
 #ifndef CPPSMTPCLIENT
 #define CPPSMTPCLIENT
 
+#include <memory>
 #include <string>
 #include "credential.hpp"
 #include "message.hpp"
@@ -143,7 +144,7 @@ class CPP_SMTPCLIENT_API SmtpClient : private jed_utils::SmtpClient {
     static jed_utils::ServerAuthOptions *extractAuthenticationOptions(const std::string &pEhloOutput);
 
  private:
-    Credential* mCredential = nullptr;
+    std::shared_ptr<const Credential> mCredential;
 };
 }  // namespace cpp
 }  // namespace jed_utils
-- 
2.43.0


From dd4a6928dea1cf534fa5817033b81bd654d2e4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:08 +0000
Subject: [PATCH 20/42] fix: the plain C++ client must use the recommended
 authentication method

---
 src/cpp/smtpclient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cpp/smtpclient.cpp b/src/cpp/smtpclient.cpp
index 3469c93..69de2d8 100644
--- a/src/cpp/smtpclient.cpp
+++ b/src/cpp/smtpclient.cpp
@@ -49,7 +49,8 @@ void SmtpClient::setCommandTimeout(unsigned int pTimeOutInSeconds) {
 
 void SmtpClient::setCredentials(const Credential &pCredential) {
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
-                                                                    pCredential.getPassword().c_str()));
+                                                                    pCredential.getPassword().c_str(),
+                                                                    pCredential.getRecommendedAuthOption()));
     mCredential = std::make_shared<const Credential>(pCredential);
 }
 
-- 
2.43.0


From 1808cd53cd153de16516612b0130f7911e4ed29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 21/42] fix: line breaks in caller supplied texts injected
 headers and commands

A subject, display name, attachment name or content id containing CR LF added
header lines, ended the headers, or, as a sender display name in MAIL FROM,
added commands.
---
 src/smtpclientbase.cpp | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 8b5cfdf..09b2944 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -42,6 +42,16 @@
 using namespace std::literals::string_literals;
 using namespace jed_utils;
 
+namespace {
+// A line break would let a text add header lines or commands of its own
+std::string toSingleLine(const std::string &pText) {
+    std::string retval { pText };
+    std::replace(retval.begin(), retval.end(), '\r', ' ');
+    std::replace(retval.begin(), retval.end(), '\n', ' ');
+    return retval;
+}
+}  // namespace
+
 SMTPClientBase::SMTPClientBase(const char *pServerName, unsigned int pPort)
     : mIsConnected(false),
       mServerName(nullptr),
@@ -851,7 +861,7 @@ int SMTPClientBase::setMailRecipients(const Message &pMsg) {
     std::vector<std::string> mailFormats;
     // Method 1, 2 and 3
     mailFormats.push_back("MAIL FROM: <"s + pMsg.getFrom().getEmailAddress() + ">\r\n"s);
-    mailFormats.push_back("MAIL FROM: <"s + pMsg.getFrom().getDisplayName() + " " + pMsg.getFrom().getEmailAddress() + ">\r\n"s);
+    mailFormats.push_back("MAIL FROM: <"s + toSingleLine(pMsg.getFrom().getDisplayName()) + " " + pMsg.getFrom().getEmailAddress() + ">\r\n"s);
     mailFormats.push_back("MAIL FROM: "s + pMsg.getFrom().getEmailAddress() + "\r\n"s);
 
 
@@ -921,7 +931,7 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
     std::stringstream from_header_ss;
     const MessageAddress &from_addr = pMsg.getFrom();
     if (strlen(from_addr.getDisplayName()) > 0) {
-        from_header_ss << from_addr.getDisplayName() << " <" << from_addr.getEmailAddress() << ">";
+        from_header_ss << toSingleLine(from_addr.getDisplayName()) << " <" << from_addr.getEmailAddress() << ">";
     } else {
         from_header_ss << from_addr.getEmailAddress();
     }
@@ -950,7 +960,7 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
 
     // Subject
     std::stringstream ss_header_subject;
-    ss_header_subject << "Subject: " << pMsg.getSubject() << "\r\n";
+    ss_header_subject << "Subject: " << toSingleLine(pMsg.getSubject()) << "\r\n";
     addCommunicationLogItem(ss_header_subject.str().c_str());
     int header_subject_ret_code = (*this.*sendCommandPtr)(ss_header_subject.str().c_str(), CLIENT_SENDMAIL_HEADERSUBJECT_ERROR);
     if (header_subject_ret_code != 0) {
@@ -1064,14 +1074,16 @@ void SMTPClientBase::addCommunicationLogItem(const char *pItem, const char *pPre
 std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*> &pAttachments) {
     std::string retval;
     for (const auto &item : pAttachments) {
+        const std::string name { toSingleLine(item->getName()) };
+        const std::string content_id { item->getContentId() != nullptr ? toSingleLine(item->getContentId()) : "" };
         retval += "\r\n--sep\r\n";
-        retval += "Content-Type: " + std::string(item->getMimeType()) + "; file=\"" + std::string(item->getName()) + "\"\r\n";
-        if (item->getContentId() != nullptr && std::string(item->getContentId()).size() > 0) {
-            retval += "X-Attachment-Id: " + std::string(item->getContentId()) + "\r\n";
-            retval += "Content-ID: <" + std::string(item->getContentId()) + ">\r\n";
-            retval += "Content-Disposition: attachment; filename=\"" + std::string(item->getName()) + "\"\r\n";
+        retval += "Content-Type: " + std::string(item->getMimeType()) + "; file=\"" + name + "\"\r\n";
+        if (!content_id.empty()) {
+            retval += "X-Attachment-Id: " + content_id + "\r\n";
+            retval += "Content-ID: <" + content_id + ">\r\n";
+            retval += "Content-Disposition: attachment; filename=\"" + name + "\"\r\n";
         } else {
-            retval += "Content-Disposition: Inline; filename=\"" + std::string(item->getName()) + "\"\r\n";
+            retval += "Content-Disposition: Inline; filename=\"" + name + "\"\r\n";
         }
         retval += "Content-Transfer-Encoding: base64\r\n\r\n";
         const char* b64 = item->getBase64EncodedFile();
@@ -1174,7 +1186,7 @@ std::string SMTPClientBase::generateHeaderAddressValues(const std::vector<jed_ut
         if (index > 0) {
             retval << ", ";
         }
-        retval << std::string(*addr);
+        retval << toSingleLine(std::string(*addr));
         index++;
     }
     return retval.str();
-- 
2.43.0


From 93bd7aea76acccc08234d40038b98b92319b1027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:54 +0000
Subject: [PATCH 22/42] fix: body lines that begin with a dot

A line with a single dot ended the message, the following text was then
executed as commands, and the first dot of other lines was lost.
---
 src/smtpclientbase.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 09b2944..37bc874 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1001,6 +1001,13 @@ int SMTPClientBase::setMailBody(const Message &pMsg) {
         body_real += attachments_text;
     }
 
+    // A line that begins with a dot gets another one, so that it does not end
+    // the data (RFC 5321 section 4.5.2)
+    const std::string LINE_WITH_DOT { "\r\n." };
+    for (size_t pos = 0; (pos = body_real.find(LINE_WITH_DOT, pos)) != std::string::npos; pos += LINE_WITH_DOT.length() + 1) {
+        body_real.insert(pos + LINE_WITH_DOT.length(), ".");
+    }
+
     const size_t CHUNK_MAXLENGTH = 512;
     if (body_real.length() > CHUNK_MAXLENGTH) {
         // Split into chunk
-- 
2.43.0


From 4f587e3015a29dbca121d40e76ca8298e29962c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 23/42] fix: quotes and backslashes in the name of an
 attachment

---
 src/smtpclientbase.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 37bc874..b5617f2 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -50,6 +50,18 @@ std::string toSingleLine(const std::string &pText) {
     std::replace(retval.begin(), retval.end(), '\n', ' ');
     return retval;
 }
+
+// Escape the characters that would end a quoted parameter value
+std::string toQuotedText(const std::string &pText) {
+    std::string retval;
+    for (char c : toSingleLine(pText)) {
+        if (c == '"' || c == '\\') {
+            retval += '\\';
+        }
+        retval += c;
+    }
+    return retval;
+}
 }  // namespace
 
 SMTPClientBase::SMTPClientBase(const char *pServerName, unsigned int pPort)
@@ -1081,7 +1093,7 @@ void SMTPClientBase::addCommunicationLogItem(const char *pItem, const char *pPre
 std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*> &pAttachments) {
     std::string retval;
     for (const auto &item : pAttachments) {
-        const std::string name { toSingleLine(item->getName()) };
+        const std::string name { toQuotedText(item->getName()) };
         const std::string content_id { item->getContentId() != nullptr ? toSingleLine(item->getContentId()) : "" };
         retval += "\r\n--sep\r\n";
         retval += "Content-Type: " + std::string(item->getMimeType()) + "; file=\"" + name + "\"\r\n";
-- 
2.43.0


From 4633b6648880b57b5273d73333d8c8518f7e4ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 24/42] fix: SIGPIPE on the encrypted connection

Sending over a TLS session whose server closed the connection terminated the
process.
---
 src/securesmtpclientbase.cpp | 41 ++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 2ace7af..091be95 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -19,12 +19,49 @@
     #include <netdb.h>
     #include <netinet/in.h>
     #include <openssl/bio.h> /* BasicInput/Output streams */
+    #include <signal.h>
     #include <unistd.h>
 #endif
 
 using namespace std::literals::string_literals;
 using namespace jed_utils;
 
+namespace {
+// OpenSSL may write to a connection already closed by the server. That must be
+// an error of the operation, not a signal that terminates the process.
+class SigPipeBlocker {
+ public:
+#ifdef _WIN32
+    SigPipeBlocker() {}
+#else
+    SigPipeBlocker() {
+        sigset_t pending;
+        sigpending(&pending);
+        mWasPending = sigismember(&pending, SIGPIPE) == 1;
+        sigemptyset(&mSigPipe);
+        sigaddset(&mSigPipe, SIGPIPE);
+        pthread_sigmask(SIG_BLOCK, &mSigPipe, &mPreviousMask);
+    }
+    ~SigPipeBlocker() {
+        sigset_t pending;
+        sigpending(&pending);
+        if (!mWasPending && sigismember(&pending, SIGPIPE) == 1) {
+            int signal_number {0};
+            sigwait(&mSigPipe, &signal_number);
+        }
+        pthread_sigmask(SIG_SETMASK, &mPreviousMask, nullptr);
+    }
+    SigPipeBlocker(const SigPipeBlocker&) = delete;
+    SigPipeBlocker& operator=(const SigPipeBlocker&) = delete;
+
+ private:
+    sigset_t mSigPipe;
+    sigset_t mPreviousMask;
+    bool mWasPending;
+#endif
+};
+}  // namespace
+
 SecureSMTPClientBase::SecureSMTPClientBase(const char *pServerName, unsigned int pPort)
     : SMTPClientBase(pServerName, pPort),
     mBIO(nullptr),
@@ -113,6 +150,7 @@ void SecureSMTPClientBase::cleanup() {
     }
     mCTX = nullptr;
     if (mBIO != nullptr) {
+        const SigPipeBlocker sigPipeBlocker;
         BIO_free_all(mBIO);
     }
     mBIO = nullptr;
@@ -210,6 +248,7 @@ int SecureSMTPClientBase::startTLSNegotiation() {
                 static_cast<int>(verify_flag));
     }
 
+    const SigPipeBlocker sigPipeBlocker;
     /* Try to connect */
     if (BIO_do_connect(mBIO) <= 0) {
         cleanup();
@@ -278,6 +317,7 @@ int SecureSMTPClientBase::getServerSecureIdentification() {
 }
 
 int SecureSMTPClientBase::sendCommand(const char *pCommand, int pErrorCode) {
+    const SigPipeBlocker sigPipeBlocker;
     if (BIO_puts(mBIO, pCommand) < 0) {
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         cleanup();
@@ -291,6 +331,7 @@ int SecureSMTPClientBase::sendCommandWithFeedback(const char *pCommand, int pErr
     if (mBIO == nullptr) {
         return sendRawCommand(pCommand, pErrorCode, pTimeoutCode);
     }
+    const SigPipeBlocker sigPipeBlocker;
     if (BIO_puts(mBIO, pCommand) < 0) {
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         cleanup();
-- 
2.43.0


From 1dc55379fbd7fae7ffdd5927bdaa0a2d8d2210a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 25/42] fix: a body that contains the part boundary

A line --sep in the body started a new part, or ended the message for the
reader.
---
 src/smtpclientbase.cpp | 22 ++++++++++++++++------
 src/smtpclientbase.h   |  2 +-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index b5617f2..033d07b 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -62,6 +62,16 @@ std::string toQuotedText(const std::string &pText) {
     }
     return retval;
 }
+
+// The boundary between the parts must not occur in the body
+std::string getBoundary(const Message &pMsg) {
+    const std::string body { pMsg.getBody() };
+    std::string retval { "sep" };
+    while (body.find("--" + retval) != std::string::npos) {
+        retval += "x";
+    }
+    return retval;
+}
 }  // namespace
 
 SMTPClientBase::SMTPClientBase(const char *pServerName, unsigned int pPort)
@@ -980,7 +990,7 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
     }
 
     // Content-Type
-    std::string content_type { "Content-Type: multipart/related; boundary=sep\r\n\r\n" };
+    std::string content_type { "Content-Type: multipart/related; boundary=" + getBoundary(pMsg) + "\r\n\r\n" };
     addCommunicationLogItem(content_type.c_str());
     int header_content_type_ret_code = (*this.*sendCommandPtr)(content_type.c_str(), CLIENT_SENDMAIL_HEADERCONTENTTYPE_ERROR);
     if (header_content_type_ret_code != 0) {
@@ -1000,7 +1010,7 @@ int SMTPClientBase::addMailHeader(const char *field, const char *value, int pErr
 int SMTPClientBase::setMailBody(const Message &pMsg) {
     // Body part
     std::ostringstream body_ss;
-    body_ss << "--sep\r\nContent-Type: " << pMsg.getMimeType() << "; charset=UTF-8\r\n\r\n" << pMsg.getBody() << "\r\n";
+    body_ss << "--" << getBoundary(pMsg) << "\r\nContent-Type: " << pMsg.getMimeType() << "; charset=UTF-8\r\n\r\n" << pMsg.getBody() << "\r\n";
     std::string body_real = body_ss.str();
     addCommunicationLogItem(body_real.c_str());
 
@@ -1009,7 +1019,7 @@ int SMTPClientBase::setMailBody(const Message &pMsg) {
 
     std::vector<Attachment*> vect_attachment(arr_attachment, arr_attachment + pMsg.getAttachmentsCount());
     if (pMsg.getAttachmentsCount() > 0) {
-        std::string attachments_text = createAttachmentsText(vect_attachment);
+        std::string attachments_text = createAttachmentsText(vect_attachment, getBoundary(pMsg));
         body_real += attachments_text;
     }
 
@@ -1090,12 +1100,12 @@ void SMTPClientBase::addCommunicationLogItem(const char *pItem, const char *pPre
     mCommunicationLog[mCommunicationLogSize-1] = '\0';
 }
 
-std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*> &pAttachments) {
+std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary) {
     std::string retval;
     for (const auto &item : pAttachments) {
         const std::string name { toQuotedText(item->getName()) };
         const std::string content_id { item->getContentId() != nullptr ? toSingleLine(item->getContentId()) : "" };
-        retval += "\r\n--sep\r\n";
+        retval += "\r\n--" + pBoundary + "\r\n";
         retval += "Content-Type: " + std::string(item->getMimeType()) + "; file=\"" + name + "\"\r\n";
         if (!content_id.empty()) {
             retval += "X-Attachment-Id: " + content_id + "\r\n";
@@ -1111,7 +1121,7 @@ std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*>
             delete[] b64;
         }
     }
-    retval += "\r\n--sep--";
+    retval += "\r\n--" + pBoundary + "--";
     return retval;
 }
 
diff --git a/src/smtpclientbase.h b/src/smtpclientbase.h
index 41e74c1..e3c6d93 100644
--- a/src/smtpclientbase.h
+++ b/src/smtpclientbase.h
@@ -198,7 +198,7 @@ class SMTPCLIENTBASE_API SMTPClientBase {
     int setMailBody(const Message &pMsg);
 
     void addCommunicationLogItem(const char *pItem, const char *pPrefix = "c");
-    static std::string createAttachmentsText(const std::vector<Attachment*> &pAttachments);
+    static std::string createAttachmentsText(const std::vector<Attachment*> &pAttachments, const std::string &pBoundary = "sep");
     static bool isReplyComplete(const std::string &pReply);
     static int extractReturnCode(const char *pOutput);
     static ServerAuthOptions *extractAuthenticationOptions(const char *pEhloOutput);
-- 
2.43.0


From 9754cb9b761137f43faf360e60e1c2a133c07e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:37 +0000
Subject: [PATCH 26/42] fix: a signal during the connection is not a timeout

select interrupted by a signal was reported as a connection timeout.
---
 src/smtpclientbase.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 033d07b..16c3e6f 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -580,7 +580,9 @@ int SMTPClientBase::initializeSessionPOSIX() {
                 FD_ZERO(&fdset);
                 FD_SET(mSock, &fdset);
                 res = select(mSock+1, NULL, &fdset, NULL, &tv);
-                if (res < 0 && errno != EINTR) {
+                if (res < 0 && errno == EINTR) {
+                    continue;
+                } else if (res < 0) {
                     setLastSocketErrNo(errno);
                     addCommunicationLogItem(strerror(errno));
                     return SOCKET_INIT_SESSION_CONNECT_ERROR;
-- 
2.43.0


From b170e9d59635e7c002039adf75ceae2a4c5165a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 27/42] fix: define the declared equality operator of
 cpp::MessageAddress

---
 src/cpp/messageaddress.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cpp/messageaddress.cpp b/src/cpp/messageaddress.cpp
index 2e3a095..e9fa1c3 100644
--- a/src/cpp/messageaddress.cpp
+++ b/src/cpp/messageaddress.cpp
@@ -8,6 +8,10 @@ MessageAddress::MessageAddress(const std::string &pEmailAddress,
     : jed_utils::MessageAddress(pEmailAddress.c_str(), pDisplayName.c_str()) {
 }
 
+bool MessageAddress::operator==(const MessageAddress &pMsgComp) const {
+    return jed_utils::MessageAddress::operator==(pMsgComp);
+}
+
 MessageAddress::operator std::string() const {
     return jed_utils::MessageAddress::operator std::string();
 }
-- 
2.43.0


From 00e23847792d798f4de6d480eadf470b6c4ec186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:55 +0000
Subject: [PATCH 28/42] fix: SIGPIPE while reading from a TLS session

---
 src/securesmtpclientbase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 091be95..b67e489 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -351,6 +351,7 @@ int SecureSMTPClientBase::getServerReply() {
     std::string fullResponse;
     unsigned int waitTime {0};
     char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
+    const SigPipeBlocker sigPipeBlocker;    // Reading from a TLS session may write as well
     setSocketToNonBlocking();
     while (!isReplyComplete(fullResponse)) {
         int bytes_received = BIO_read(mBIO, outbuf, SERVERRESPONSE_BUFFER_LENGTH);
-- 
2.43.0


From e396ed76d48fc01e0ba703c4687d97942f672f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:26 +0000
Subject: [PATCH 29/42] fix: take only the complete AUTH and STARTTLS keywords
 of the capability list

---
 src/opportunisticsecuresmtpclient.cpp | 12 ++++++++++--
 src/smtpclientbase.cpp                |  7 +++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/opportunisticsecuresmtpclient.cpp b/src/opportunisticsecuresmtpclient.cpp
index 14aff81..6824bc3 100644
--- a/src/opportunisticsecuresmtpclient.cpp
+++ b/src/opportunisticsecuresmtpclient.cpp
@@ -111,6 +111,14 @@ bool OpportunisticSecureSMTPClient::isStartTLSSupported(const char *pServerRespo
 
     // It may be any line of the response, the last one included (without an hyphen)
     serverResponse = StringUtils::toUpper(serverResponse);
-    return serverResponse.find("250-STARTTLS") != std::string::npos ||
-        serverResponse.find("250 STARTTLS") != std::string::npos;
+    for (const auto &keyword : { std::string("250-STARTTLS"), std::string("250 STARTTLS") }) {
+        for (size_t pos = serverResponse.find(keyword); pos != std::string::npos; pos = serverResponse.find(keyword, pos + 1)) {
+            // The keyword must be complete, the first line may name a server like starttls.example.com
+            size_t end = pos + keyword.length();
+            if (end == serverResponse.length() || std::string(" \r\n").find(serverResponse[end]) != std::string::npos) {
+                return true;
+            }
+        }
+    }
+    return false;
 }
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 16c3e6f..3220eac 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1154,8 +1154,11 @@ ServerAuthOptions *ParseAuthenticationOptions(const std::string &authLine) {
     const std::string AUTH_LINE_PREFIX_ALTERNATE = "250 AUTH";
     std::string line = StringUtils::toUpper(authLine);
     // Find the line that begin with 250-AUTH or 250 AUTH
-    if (line.substr(0, AUTH_LINE_PREFIX.length()) == AUTH_LINE_PREFIX ||
-        line.substr(0, AUTH_LINE_PREFIX_ALTERNATE.length()) == AUTH_LINE_PREFIX_ALTERNATE) {
+    // (the keyword must be complete, the first line may name a server like auth.example.com)
+    bool isPrefixFound = line.substr(0, AUTH_LINE_PREFIX.length()) == AUTH_LINE_PREFIX ||
+        line.substr(0, AUTH_LINE_PREFIX_ALTERNATE.length()) == AUTH_LINE_PREFIX_ALTERNATE;
+    if (isPrefixFound && (line.length() == AUTH_LINE_PREFIX.length() ||
+                std::string(" =\r\n").find(line[AUTH_LINE_PREFIX.length()]) != std::string::npos)) {
         retval = new ServerAuthOptions();
         // Find each options
         std::vector<std::string> options;
-- 
2.43.0


From 902758ee9c7c036bdd8fd67ce966e8d365f847b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 30/42] fix: checking a long address takes forever

---
 src/messageaddress.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/messageaddress.cpp b/src/messageaddress.cpp
index 091c292..0e7a666 100644
--- a/src/messageaddress.cpp
+++ b/src/messageaddress.cpp
@@ -117,7 +117,9 @@ const char *MessageAddress::getDisplayName() const {
 }
 
 bool MessageAddress::isEmailAddressValid(const std::string &pEmailAddress) const {
-    std::regex emailPattern("^[_a-z0-9-]+(.[_a-z0-9-]+)*@[a-z0-9-]+(.[a-z0-9-]+)*(.[a-z]{2,4})$");
+    // The separators exclude the characters of the parts: otherwise a part can be split
+    // in so many ways that the match takes forever with long addresses
+    std::regex emailPattern("^[_a-z0-9-]+([^_a-z0-9\\r\\n-][_a-z0-9-]+)*@[a-z0-9-]+([^a-z0-9\\r\\n-][a-z0-9-]+)*.[a-z]{2,4}$");
     return regex_match(StringUtils::toLower(pEmailAddress), emailPattern);
 }
 
-- 
2.43.0


From c389c0597ebc7d1b0a37720aa4110ad9e1420a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:50 +0000
Subject: [PATCH 31/42] fix: resolving a server name in several threads at the
 same time

---
 src/smtpclientbase.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 3220eac..7af0e8c 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -553,17 +553,18 @@ int SMTPClientBase::initializeSessionPOSIX() {
         addCommunicationLogItem(strerror(errno));
         return SOCKET_INIT_SESSION_CREATION_ERROR;
     }
-    struct hostent *host = gethostbyname(getServerName());
-    if (!host || host->h_length < 0) {
+    // The result of gethostbyname is shared by all the threads of the program
+    struct addrinfo hints {};
+    hints.ai_family = AF_INET;
+    hints.ai_socktype = SOCK_STREAM;
+    struct addrinfo *host = nullptr;
+    if (getaddrinfo(getServerName(), nullptr, &hints, &host) != 0) {
         return SOCKET_INIT_SESSION_GETHOSTBYNAME_ERROR;
     }
     struct sockaddr_in saddr_in {};
-    saddr_in.sin_family = AF_INET;
+    memcpy(&saddr_in, host->ai_addr, sizeof(saddr_in));
     saddr_in.sin_port = htons(static_cast<u_short>(getServerPort()));
-    saddr_in.sin_addr.s_addr = 0;
-    memcpy(reinterpret_cast<char*>(&(saddr_in.sin_addr)),
-           host->h_addr,
-           static_cast<size_t>(host->h_length));
+    freeaddrinfo(host);
     // Set non-blocking
     if (int socketSetFlagsResult = setSocketToNonBlockingPOSIX()) {
         return socketSetFlagsResult;
-- 
2.43.0


From 92fc494833e3bb9bd8d1133fd99adba1b681e193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:25 +0000
Subject: [PATCH 32/42] fix: connecting with a descriptor above 1023, or while
 signals arrive

---
 src/smtpclientbase.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 7af0e8c..da450c5 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1,6 +1,7 @@
 #include "smtpclientbase.h"
 #include <algorithm>
 #include <cerrno>
+#include <chrono>
 #include <cstddef>
 #include <cstring>
 #include <limits>
@@ -30,6 +31,7 @@
     #include <fcntl.h>
     #include <netdb.h>
     #include <netinet/in.h>
+    #include <poll.h>
     #include <sys/socket.h>
     #include <sys/types.h>
     #include <unistd.h>
@@ -543,7 +545,6 @@ void SMTPClientBase::doWSACleanup() {
 #else
 int SMTPClientBase::initializeSessionPOSIX() {
     // POSIX socket version
-    fd_set fdset;
     struct timeval tv;
     socklen_t lon;
     int valopt;
@@ -575,12 +576,14 @@ int SMTPClientBase::initializeSessionPOSIX() {
     int res = connect(mSock, reinterpret_cast<struct sockaddr*>(&saddr_in), sizeof(saddr_in));
     if (res < 0) {
         if (errno == EINPROGRESS) {
+            const auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(mCommandTimeOut);
             do {
-                tv.tv_sec = mCommandTimeOut;
-                tv.tv_usec = 0;
-                FD_ZERO(&fdset);
-                FD_SET(mSock, &fdset);
-                res = select(mSock+1, NULL, &fdset, NULL, &tv);
+                // select() could not wait for a descriptor above FD_SETSIZE
+                struct pollfd fdset { mSock, POLLOUT, 0 };
+                auto remaining = std::chrono::duration_cast<std::chrono::milliseconds>(
+                        deadline - std::chrono::steady_clock::now()).count();
+                remaining = std::max<decltype(remaining)>(0, std::min<decltype(remaining)>(remaining, (std::numeric_limits<int>::max)()));
+                res = poll(&fdset, 1, static_cast<int>(remaining));
                 if (res < 0 && errno == EINTR) {
                     continue;
                 } else if (res < 0) {
@@ -605,7 +608,7 @@ int SMTPClientBase::initializeSessionPOSIX() {
                         return SOCKET_INIT_SESSION_DELAYED_CONNECTION_ERROR;
                     }
                     break;
-                } else {
+                } else if (std::chrono::steady_clock::now() >= deadline) {
                     return SOCKET_INIT_SESSION_CONNECT_TIMEOUT;
                 }
             } while (1);
-- 
2.43.0


From 9c473ea7e4c71a678d9630e1c931b4a6a93d9f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 33/42] fix: a signal handled during a send makes it fail or
 shortens its timeouts

---
 src/securesmtpclientbase.cpp | 22 ++++++++++++++++++----
 src/smtpclientbase.cpp       | 10 +++++++++-
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index b67e489..3e7b2b2 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -1,6 +1,8 @@
 #include "securesmtpclientbase.h"
 #include <openssl/err.h>
 #include <openssl/x509_vfy.h>
+#include <cerrno>
+#include <chrono>
 #include <string>
 #include <utility>
 #include "smtpclienterrors.h"
@@ -60,6 +62,18 @@ class SigPipeBlocker {
     bool mWasPending;
 #endif
 };
+
+// Repeat an operation of OpenSSL that was interrupted by a signal handled by the program
+template <typename Operation>
+int repeatIfInterrupted(unsigned int pTimeOutInSeconds, Operation pOperation) {
+    const auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(pTimeOutInSeconds);
+    int retval {0};
+    do {
+        errno = 0;
+        retval = pOperation();
+    } while (retval <= 0 && errno == EINTR && std::chrono::steady_clock::now() < deadline);
+    return retval;
+}
 }  // namespace
 
 SecureSMTPClientBase::SecureSMTPClientBase(const char *pServerName, unsigned int pPort)
@@ -250,7 +264,7 @@ int SecureSMTPClientBase::startTLSNegotiation() {
 
     const SigPipeBlocker sigPipeBlocker;
     /* Try to connect */
-    if (BIO_do_connect(mBIO) <= 0) {
+    if (repeatIfInterrupted(getCommandTimeout(), [this]() { return static_cast<int>(BIO_do_connect(mBIO)); }) <= 0) {
         cleanup();
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         return SSL_CLIENT_STARTTLS_BIO_CONNECT_ERROR;
@@ -258,7 +272,7 @@ int SecureSMTPClientBase::startTLSNegotiation() {
 
     /* Try to do the handshake */
     addCommunicationLogItem("<Negotiate a TLS session>", "c & s");
-    if (BIO_do_handshake(mBIO) <= 0) {
+    if (repeatIfInterrupted(getCommandTimeout(), [this]() { return static_cast<int>(BIO_do_handshake(mBIO)); }) <= 0) {
         cleanup();
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         return SSL_CLIENT_STARTTLS_BIO_HANDSHAKE_ERROR;
@@ -318,7 +332,7 @@ int SecureSMTPClientBase::getServerSecureIdentification() {
 
 int SecureSMTPClientBase::sendCommand(const char *pCommand, int pErrorCode) {
     const SigPipeBlocker sigPipeBlocker;
-    if (BIO_puts(mBIO, pCommand) < 0) {
+    if (repeatIfInterrupted(getCommandTimeout(), [&]() { return BIO_puts(mBIO, pCommand); }) < 0) {
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         cleanup();
         return pErrorCode;
@@ -332,7 +346,7 @@ int SecureSMTPClientBase::sendCommandWithFeedback(const char *pCommand, int pErr
         return sendRawCommand(pCommand, pErrorCode, pTimeoutCode);
     }
     const SigPipeBlocker sigPipeBlocker;
-    if (BIO_puts(mBIO, pCommand) < 0) {
+    if (repeatIfInterrupted(getCommandTimeout(), [&]() { return BIO_puts(mBIO, pCommand); }) < 0) {
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         cleanup();
         return pErrorCode;
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index da450c5..99ea015 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -34,6 +34,7 @@
     #include <poll.h>
     #include <sys/socket.h>
     #include <sys/types.h>
+    #include <time.h>
     #include <unistd.h>
 #endif
 
@@ -717,8 +718,12 @@ int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode) {
     size_t commandSize = strlen(pCommand);
 #endif
     // The command may be accepted by the socket in several pieces
+    const auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(mCommandTimeOut);
     do {
         auto bytes_sent = send(mSock, pCommand, commandSize, MSG_NOSIGNAL);
+        if (bytes_sent == -1 && errno == EINTR && std::chrono::steady_clock::now() < deadline) {
+            continue;  // A signal handled by the program is not an error
+        }
         if (bytes_sent == -1) {
             setLastSocketErrNo(errno);
             cleanup();
@@ -788,7 +793,10 @@ void SMTPClientBase::crossPlatformSleep(unsigned int seconds) {
     #ifdef _WIN32
         sleep(seconds * 1000);
     #else
-        sleep(seconds);
+        // A signal handled by the program must not shorten the wait
+        struct timespec remaining { static_cast<time_t>(seconds), 0 };
+        while (nanosleep(&remaining, &remaining) == -1 && errno == EINTR) {
+        }
     #endif
 }
 
-- 
2.43.0


From 2faef9a0c6863609d96e634e440f8f1458fc905f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 34/42] fix: with a timeout of zero a send waits forever for
 the TLS handshake

---
 src/smtpclientbase.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 99ea015..6f17afa 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -619,9 +619,10 @@ int SMTPClientBase::initializeSessionPOSIX() {
             return SOCKET_INIT_SESSION_CONNECT_ERROR;
         }
     }
-    // The TLS handshake and the sends must not wait for the server forever
+    // The TLS handshake and the sends must not wait for the server forever,
+    // which is what a value of zero would mean
     tv.tv_sec = mCommandTimeOut;
-    tv.tv_usec = 0;
+    tv.tv_usec = mCommandTimeOut == 0 ? 1 : 0;
     if (setsockopt(mSock, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof(tv)) < 0
             || setsockopt(mSock, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv)) < 0) {
         setLastSocketErrNo(errno);
-- 
2.43.0


From a7ecdb8e3ff2472290e300198b41fb1fc7d84991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 35/42] fix: the authentication options of an EHLO reply are
 leaked

When the AUTH line is followed by other lines, the options were parsed
once from the rest of the reply and once more from the line itself, and
the first object was never freed.
---
 src/smtpclientbase.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 6f17afa..da5eb03 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1219,7 +1219,8 @@ ServerAuthOptions *SMTPClientBase::extractAuthenticationOptions(const char *pEhl
             break;
         }
         ehlo_output.erase(0, ehlo_character_index + DELIMITER.length());
-        if (!ehlo_output.empty() && retVal == nullptr) {
+        // The last line may have no delimiter
+        if (!ehlo_output.empty() && ehlo_output.find(DELIMITER) == std::string::npos) {
             retVal = ParseAuthenticationOptions(ehlo_output);
         }
     }
-- 
2.43.0


From d5e2a55702085c8c4ab43cb3027b767c60f804fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 36/42] fix: the C++ interface leaks the error texts and the
 encoded file

SMTPClientBase::getErrorMessage and Attachment::getBase64EncodedFile return
an array that belongs to the caller.
---
 src/cpp/attachment.cpp                    | 4 +++-
 src/cpp/forcedsecuresmtpclient.cpp        | 6 +++++-
 src/cpp/opportunisticsecuresmtpclient.cpp | 6 +++++-
 src/cpp/smtpclient.cpp                    | 6 +++++-
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/cpp/attachment.cpp b/src/cpp/attachment.cpp
index 315116a..93bc13f 100644
--- a/src/cpp/attachment.cpp
+++ b/src/cpp/attachment.cpp
@@ -24,7 +24,9 @@ std::string Attachment::getContentId() const {
 
 std::string Attachment::getBase64EncodedFile() const {
     const char *retval = jed_utils::Attachment::getBase64EncodedFile();
-    return retval == nullptr ? "" : retval;
+    std::string encodedFile { retval == nullptr ? "" : retval };
+    delete[] retval;
+    return encodedFile;
 }
 
 std::string Attachment::getMimeType() const {
diff --git a/src/cpp/forcedsecuresmtpclient.cpp b/src/cpp/forcedsecuresmtpclient.cpp
index 4548b8c..604161f 100644
--- a/src/cpp/forcedsecuresmtpclient.cpp
+++ b/src/cpp/forcedsecuresmtpclient.cpp
@@ -67,7 +67,10 @@ void ForcedSecureSMTPClient::setKeepUsingBaseSendCommands(bool pValue) {
 }
 
 std::string ForcedSecureSMTPClient::getErrorMessage(int errorCode) {
-    return jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    char *errorMsg = jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    std::string errorMessage { errorMsg };
+    delete[] errorMsg;
+    return errorMessage;
 }
 
 int ForcedSecureSMTPClient::getErrorMessage_r(int errorCode,
@@ -76,6 +79,7 @@ int ForcedSecureSMTPClient::getErrorMessage_r(int errorCode,
     char *errorMsg = new char[MAXSIZE];
     int result = jed_utils::SMTPClientBase::getErrorMessage_r(errorCode, errorMsg, MAXSIZE);
     errorMessage = errorMsg;
+    delete[] errorMsg;
     return result;
 }
 
diff --git a/src/cpp/opportunisticsecuresmtpclient.cpp b/src/cpp/opportunisticsecuresmtpclient.cpp
index 5fcbe64..235a6cf 100644
--- a/src/cpp/opportunisticsecuresmtpclient.cpp
+++ b/src/cpp/opportunisticsecuresmtpclient.cpp
@@ -67,7 +67,10 @@ void OpportunisticSecureSMTPClient::setKeepUsingBaseSendCommands(bool pValue) {
 }
 
 std::string OpportunisticSecureSMTPClient::getErrorMessage(int errorCode) {
-    return jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    char *errorMsg = jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    std::string errorMessage { errorMsg };
+    delete[] errorMsg;
+    return errorMessage;
 }
 
 int OpportunisticSecureSMTPClient::getErrorMessage_r(int errorCode,
@@ -76,6 +79,7 @@ int OpportunisticSecureSMTPClient::getErrorMessage_r(int errorCode,
     char *errorMsg = new char[MAXSIZE];
     int result = jed_utils::SMTPClientBase::getErrorMessage_r(errorCode, errorMsg, MAXSIZE);
     errorMessage = errorMsg;
+    delete[] errorMsg;
     return result;
 }
 
diff --git a/src/cpp/smtpclient.cpp b/src/cpp/smtpclient.cpp
index 69de2d8..a8a6c91 100644
--- a/src/cpp/smtpclient.cpp
+++ b/src/cpp/smtpclient.cpp
@@ -59,7 +59,10 @@ void SmtpClient::setKeepUsingBaseSendCommands(bool pValue) {
 }
 
 std::string SmtpClient::getErrorMessage(int errorCode) {
-    return jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    char *errorMsg = jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    std::string errorMessage { errorMsg };
+    delete[] errorMsg;
+    return errorMessage;
 }
 
 int SmtpClient::getErrorMessage_r(int errorCode,
@@ -68,6 +71,7 @@ int SmtpClient::getErrorMessage_r(int errorCode,
     char *errorMsg = new char[MAXSIZE];
     int result = jed_utils::SMTPClientBase::getErrorMessage_r(errorCode, errorMsg, MAXSIZE);
     errorMessage = errorMsg;
+    delete[] errorMsg;
     return result;
 }
 
-- 
2.43.0


From 588dffeaf844a6c0c5b186cb1b4d0fce337be1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 37/42] fix: in a Turkish locale the upper case of 'i' is not
 recognised

The names of the media types, of the authentication methods and the
addresses were converted with the rules of the locale of the program.
---
 src/stringutils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stringutils.cpp b/src/stringutils.cpp
index cbb9b86..a1b8b98 100644
--- a/src/stringutils.cpp
+++ b/src/stringutils.cpp
@@ -33,14 +33,16 @@ std::string StringUtils::trim(const std::string &pString) {
 
 std::string StringUtils::toLower(const std::string &pString) {
     std::string transformed_string { pString };
+    // Not std::tolower: the protocol is ASCII whatever the locale of the program
     std::transform(pString.begin(), pString.end(), transformed_string.begin(),
-            [](unsigned char c){ return static_cast<char>(std::tolower(c)); });
+            [](char c){ return c >= 'A' && c <= 'Z' ? static_cast<char>(c - 'A' + 'a') : c; });
     return transformed_string;
 }
 
 std::string StringUtils::toUpper(const std::string &pString) {
     std::string transformed_string { pString };
+    // Not std::toupper: the protocol is ASCII whatever the locale of the program
     std::transform(pString.begin(), pString.end(), transformed_string.begin(),
-            [](unsigned char c){ return static_cast<char>(std::toupper(c)); });
+            [](char c){ return c >= 'a' && c <= 'z' ? static_cast<char>(c - 'a' + 'A') : c; });
     return transformed_string;
 }
-- 
2.43.0


From 2154ea34cfbf2112105dfadbdebc15304f45fd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 38/42] fix: destroying or assigning to a client whose batch
 mode was turned off leaves its session without QUIT

---
 src/securesmtpclientbase.cpp | 2 ++
 src/smtpclient.cpp           | 2 ++
 src/smtpclientbase.cpp       | 6 ++++--
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 3e7b2b2..5b6bf44 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -85,6 +85,8 @@ SecureSMTPClientBase::SecureSMTPClientBase(const char *pServerName, unsigned int
 }
 
 SecureSMTPClientBase::~SecureSMTPClientBase() {
+    // End an open session with QUIT even if batch mode was turned off since
+    setBatchMode(true);
     SecureSMTPClientBase::cleanup();
 }
 
diff --git a/src/smtpclient.cpp b/src/smtpclient.cpp
index d5ee56b..c08c7f2 100644
--- a/src/smtpclient.cpp
+++ b/src/smtpclient.cpp
@@ -20,6 +20,8 @@ SmtpClient::SmtpClient(const char *pServerName, unsigned int pPort)
 }
 
 SmtpClient::~SmtpClient() {
+    // End an open session with QUIT even if batch mode was turned off since
+    setBatchMode(true);
     SmtpClient::cleanup();
 }
 
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index da5eb03..2f331bd 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -151,7 +151,8 @@ SMTPClientBase::SMTPClientBase(const SMTPClientBase& other)
 // Assignment operator
 SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
     if (this != &other) {
-        // End the connection of this client
+        // End the connection of this client, with QUIT even if batch mode was turned off since
+        mBatchMode = true;
         cleanup();
         // mServerName
         delete[] mServerName;
@@ -231,7 +232,8 @@ SMTPClientBase::SMTPClientBase(SMTPClientBase&& other) noexcept
 // Move assignement operator
 SMTPClientBase& SMTPClientBase::operator=(SMTPClientBase&& other) noexcept {
     if (this != &other) {
-        // End the connection of this client
+        // End the connection of this client, with QUIT even if batch mode was turned off since
+        mBatchMode = true;
         cleanup();
         delete[] mServerName;
         delete[] mCommunicationLog;
-- 
2.43.0


From 36158a7d05c5e7fa0f3fc2f5adecbe7e0b4684a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:08 +0000
Subject: [PATCH 39/42] fix: a failure to read the flags of the socket is not
 reported

---
 src/smtpclientbase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 2f331bd..52e69e9 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -640,6 +640,7 @@ int SMTPClientBase::setSocketToNonBlockingPOSIX() {
     if ((arg = fcntl(mSock, F_GETFL, NULL)) < 0) {
         setLastSocketErrNo(errno);
         addCommunicationLogItem(strerror(errno));
+        return SOCKET_INIT_SESSION_FCNTL_GET_ERROR;
     }
     arg |= O_NONBLOCK;
     if (fcntl(mSock, F_SETFL, arg) < 0) {
-- 
2.43.0


From f36f2583a42ed7b7df8e20b5c9486720dbeabf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:01 +0000
Subject: [PATCH 40/42] fix: a directory given as attachment is sent as four
 gigabytes of zero bytes

---
 src/attachment.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/attachment.cpp b/src/attachment.cpp
index 571286a..202965b 100644
--- a/src/attachment.cpp
+++ b/src/attachment.cpp
@@ -135,12 +135,14 @@ const char *Attachment::getBase64EncodedFile() const {
     // Open the file
     std::ifstream in(mFilename, std::ios::in | std::ios::binary);
     if (in) {
+        // The size that is reported for a directory or for a file of the system
+        // is not the number of bytes that can be read
         std::string contents;
-        in.seekg(0, std::ios::end);
-        contents.resize(static_cast<unsigned int>(in.tellg()));
-        in.seekg(0, std::ios::beg);
-        if (static_cast<intmax_t>(contents.size()) <= std::numeric_limits<std::streamsize>::max()) {
-            in.read(&contents[0], static_cast<std::streamsize>(contents.size()));
+        char block[4096];
+        while (in.read(block, sizeof(block)) || in.gcount() > 0) {
+            contents.append(block, static_cast<size_t>(in.gcount()));
+        }
+        if (!in.bad()) {
             in.close();
             std::string base64_result = Base64::Encode(reinterpret_cast<const unsigned char*>(contents.c_str()), contents.length());
             auto *base64_file = new char[base64_result.length() + 1];
-- 
2.43.0


From d03e321f69d0b30db10405eb36f4bfef9de83535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:01 +0000
Subject: [PATCH 41/42] fix: the name of the server is written beyond the end
 of a buffer when it is long

---
 src/securesmtpclientbase.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 5b6bf44..57df20a 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -222,13 +222,11 @@ int SecureSMTPClientBase::startTLSNegotiation() {
     }
 
     /* Link bio channel, SSL session, and server endpoint */
-    const int SERVERNAMEANDPORT_LENGTH = 1024;
-    char name[SERVERNAMEANDPORT_LENGTH];
-    sprintf(name, "%s:%u", getServerName(), getServerPort());
+    const std::string name { getServerName() + ":"s + std::to_string(getServerPort()) };
     BIO_get_ssl(mBIO, &mSSL); /* session */
     SSL_set_fd(mSSL, getSocketFileDescriptor());
     SSL_set_mode(mSSL, SSL_MODE_AUTO_RETRY); /* robustness */
-    BIO_set_conn_hostname(mBIO, name); /* prepare to connect */
+    BIO_set_conn_hostname(mBIO, name.c_str()); /* prepare to connect */
 
 #ifdef _WIN32
     /* On Windows, we need to import all the ROOT certificates to
-- 
2.43.0


From 5620b70802937ecdd8fe8c296ba8d3ab0d8f9407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 42/42] fix: the locale of the program changes how the port is
 written in the log

---
 src/smtpclientbase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 52e69e9..d15cb08 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -475,7 +475,7 @@ int SMTPClientBase::initializeSessionWinSock() {
         return SOCKET_INIT_SESSION_CREATION_ERROR;
     }
     std::stringstream ss;
-    ss << "Trying to connect to " << getServerName() << " on port " << getServerPort();
+    ss << "Trying to connect to " << getServerName() << " on port " << std::to_string(getServerPort());
     addCommunicationLogItem(ss.str().c_str());
     wsa_retVal = connect(mSock, result->ai_addr, static_cast<int>(result->ai_addrlen));
     if (wsa_retVal == SOCKET_ERROR) {
@@ -574,7 +574,7 @@ int SMTPClientBase::initializeSessionPOSIX() {
         return socketSetFlagsResult;
     }
     std::stringstream ss;
-    ss << "Trying to connect to " << getServerName() << " on port " << getServerPort();
+    ss << "Trying to connect to " << getServerName() << " on port " << std::to_string(getServerPort());
     addCommunicationLogItem(ss.str().c_str());
     int res = connect(mSock, reinterpret_cast<struct sockaddr*>(&saddr_in), sizeof(saddr_in));
     if (res < 0) {
-- 
2.43.0

