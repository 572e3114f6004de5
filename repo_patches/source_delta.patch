From 38715ffa425794cea20d6a59cd759c5ddf7f30e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:51 +0000
Subject: [PATCH 01/15] fix: keep the back link when unlinking a path cache
 node

refreshNode left the successor's prev pointing at the moved node. After two
refreshes the list was corrupt and the most recently used entry was evicted.
---
 filetree/fastcache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filetree/fastcache.go b/filetree/fastcache.go
index a79a30e..1265dde 100644
--- a/filetree/fastcache.go
+++ b/filetree/fastcache.go
@@ -55,6 +55,7 @@ func (f *FastCache) refreshNode(d *DirMapping) {
 		} else {
 			f.head = d.next
 		}
+		d.next.prev = d.prev
 		d.prev = f.last
 		d.next = nil
 		f.last.next = d
-- 
2.43.0


From 307732f33da7c023250ad0948219b175f6600377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:51 +0000
Subject: [PATCH 02/15] fix: do not panic on a file too short to hold a block

A stored file of 19 to 50 bytes has plaintext length 0, so there was no block
to take the offset from and the proxy crashed with an index out of range.
---
 filetree/decrypt.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/filetree/decrypt.go b/filetree/decrypt.go
index 32ad17a..2fb13b9 100644
--- a/filetree/decrypt.go
+++ b/filetree/decrypt.go
@@ -26,9 +26,8 @@ func (f *FileTree) decryptFile(fileBytes []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	blocks := f.cEnc.ExplodePlainRange(0, plainLength)
-	alignedOffset, _ := blocks[0].JointCiphertextRange(blocks)
-	plaintext, err := f.cEnc.DecryptBlocks(fileBytes[alignedOffset:], blocks[0].BlockNo, fileID)
+	// Don't derive the range from plainLength: it is zero for a truncated file.
+	plaintext, err := f.cEnc.DecryptBlocks(fileBytes[contentenc.HeaderLen:], 0, fileID)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 310b51855d08d1c3c6d0e2702413f6f4ead080f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:51 +0000
Subject: [PATCH 03/15] fix: read an empty file as empty instead of failing
 with EOF

Sizes of such files are reported as 0, as in gocryptfs, but reading them failed.
---
 filetree/decrypt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filetree/decrypt.go b/filetree/decrypt.go
index 2fb13b9..ff563d5 100644
--- a/filetree/decrypt.go
+++ b/filetree/decrypt.go
@@ -23,6 +23,10 @@ func (f *FileTree) readFileID(fileBytes []byte) ([]byte, error) {
 func (f *FileTree) decryptFile(fileBytes []byte) ([]byte, error) {
 	plainLength := f.cEnc.CipherSizeToPlainSize(uint64(len(fileBytes)))
 	fileID, err := f.readFileID(fileBytes)
+	if err == io.EOF {
+		// Nothing behind the header: an empty file.
+		return []byte{}, nil
+	}
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From db7e70465019e997bf531f3ab559d4510d4ff29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:28 +0000
Subject: [PATCH 04/15] fix: reject over-long names and wrong-size directory
 IVs

EME panics on them, and the panic in a worker goroutine kills the proxy.
---
 gocrypt/nametransform/names.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gocrypt/nametransform/names.go b/gocrypt/nametransform/names.go
index 65d0b5a..389af24 100644
--- a/gocrypt/nametransform/names.go
+++ b/gocrypt/nametransform/names.go
@@ -15,6 +15,8 @@ import (
 const (
 	// Like ext4, we allow at most 255 bytes for a file name.
 	NameMax = 255
+	// EME can process at most 128 AES blocks.
+	maxEMELen = 128 * aes.BlockSize
 )
 
 // NameTransformer is an interface used to transform filenames.
@@ -65,6 +67,12 @@ func (n *NameTransform) DecryptName(cipherName string, iv []byte) (string, error
 		tlog.Debug.Printf("DecryptName %q: decoded length %d is not a multiple of 16", cipherName, len(bin))
 		return "", syscall.EBADMSG
 	}
+	// EME panics on anything longer than 128 blocks, or if the IV does not have
+	// exactly the block size. Both come from the untrusted remote.
+	if len(bin) > maxEMELen || len(iv) != DirIVLen {
+		tlog.Debug.Printf("DecryptName %q: bad length: name=%d, iv=%d", cipherName, len(bin), len(iv))
+		return "", syscall.EBADMSG
+	}
 	bin = n.emeCipher.Decrypt(iv, bin)
 	bin, err = unPad16(bin)
 	if err != nil {
-- 
2.43.0


From 11714291f25145bf3a8858a383ca86709029d95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:28 +0000
Subject: [PATCH 05/15] fix: cache empty successful results, drop data that
 comes with an error

An empty file or directory was unreadable, and partial data returned along
with an error was served as a success.
---
 requester/requester.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/requester/requester.go b/requester/requester.go
index d5d8b93..fdca2ff 100644
--- a/requester/requester.go
+++ b/requester/requester.go
@@ -155,20 +155,20 @@ func (r *Requester) worker(num int) {
 			r.performRequestAndCache(w.arg1, num, r.fileCache, w.respChan,
 				func() (interface{}, error) {
 					fileData, err := r.backend.ReadFile(w.arg1)
-					if len(fileData) > 0 {
-						return fileData, err
+					if err != nil {
+						return nil, err
 					}
-					return nil, err
+					return fileData, nil
 				},
 			)
 		case workReadDir:
 			r.performRequestAndCache(w.arg1, num, r.dirCache, w.respChan,
 				func() (interface{}, error) {
 					dirData, err := r.backend.ReadDir(w.arg1)
-					if len(dirData) > 0 {
-						return dirData, err
+					if err != nil {
+						return nil, err
 					}
-					return nil, err
+					return dirData, nil
 				},
 			)
 		case workDecryptName:
@@ -176,10 +176,10 @@ func (r *Requester) worker(num int) {
 			r.performRequestAndCache(key, num, r.decryptCache, w.respChan,
 				func() (interface{}, error) {
 					decryptedName, err := r.decrypter.DecryptName(w.arg1, w.arg2)
-					if len(decryptedName) > 0 {
-						return decryptedName, err
+					if err != nil {
+						return nil, err
 					}
-					return nil, err
+					return decryptedName, nil
 				},
 			)
 		case workNone:
-- 
2.43.0


From b6889821f0554c63c95a4d05531cc3be743fb7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:28 +0000
Subject: [PATCH 06/15] fix: do not wedge a worker when its requester has timed
 out

---
 requester/makerequest.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/requester/makerequest.go b/requester/makerequest.go
index 752eaa5..6c017fc 100644
--- a/requester/makerequest.go
+++ b/requester/makerequest.go
@@ -33,7 +33,8 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 				return cached.data, nil
 			}
 		}
-		respChan := make(chan *workTicket)
+		// Buffered, so that the worker never blocks if we time out below.
+		respChan := make(chan *workTicket, 1)
 		r.workQueue <- work{
 			requestType: requestType,
 			arg1:        arg1,
-- 
2.43.0


From 908b4521f79f89853a1a4ae4d52e0635c281b6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:05 +0000
Subject: [PATCH 07/15] fix: use the whole directory IV in the name cache key

Two IVs with the same 64-bit hash shared cached names.
---
 requester/complexkey.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/requester/complexkey.go b/requester/complexkey.go
index 83a5c98..cc02996 100644
--- a/requester/complexkey.go
+++ b/requester/complexkey.go
@@ -2,19 +2,10 @@ package requester
 
 import (
 	"fmt"
-
-	"github.com/dchest/siphash"
-)
-
-// Code adapted from github.com/cornelk/hashmap
-// Under the Apache 2.0 license:
-// https://github.com/cornelk/hashmap/blob/33e58823eb9d4426a8d2b604cece33c3c15df8cc/LICENSE
-const (
-	// generated by splitting the md5 sum of "hashmap"
-	sipHashKey1 = 0xdda7806a4847ec61
-	sipHashKey2 = 0xb5940c2623a5aabd
 )
 
+// complexKey combines s and b into one cache key. b has to go in unabridged:
+// it comes from the untrusted remote, which could make two hashes collide.
 func complexKey(s string, b []byte) string {
-	return fmt.Sprintf("%s+%x", s, siphash.Hash(sipHashKey1, sipHashKey2, b))
+	return fmt.Sprintf("%s+%x", s, b)
 }
-- 
2.43.0


From a9c45d5d08b2e4f04b8c9e00af33977e385f68ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:05 +0000
Subject: [PATCH 08/15] fix: look names up under the key the worker stores them

With an empty IV the plain name was used, which can equal the key of another
(name, IV) pair.
---
 requester/makerequest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/requester/makerequest.go b/requester/makerequest.go
index 6c017fc..22726ea 100644
--- a/requester/makerequest.go
+++ b/requester/makerequest.go
@@ -21,7 +21,7 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 		panic("Invalid request type")
 	}
 	key := arg1
-	if len(arg2) > 0 {
+	if requestType == workDecryptName {
 		key = complexKey(arg1, arg2)
 	}
 
-- 
2.43.0


From 58a9c20fb2a0eb3c6a191f02416e25b44189f4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:05 +0000
Subject: [PATCH 09/15] fix: make Stat work on regular files

---
 filetree/filetree.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 95be0e4..d2bf389 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -185,9 +185,18 @@ func (f *FileTree) Stat(plainPath string) (os.FileInfo, error) {
 	cleanPath := filepath.Clean(plainPath)
 
 	plainBaseName := filepath.Base(cleanPath)
-	cipherPath, err := f.findPath(cleanPath)
-	if err != nil {
-		return statErr(fmt.Sprintf("error finding path: %s", err))
+	cipherPath := f.encryptedRoot
+	if cleanPath != "/" {
+		// The last component may be a file, which findPath rejects.
+		cipherDirPath, err := f.findPath(filepath.Dir(cleanPath))
+		if err != nil {
+			return statErr(fmt.Sprintf("error finding parent path: %s", err))
+		}
+		entry, err := f.findInDir(cipherDirPath, plainBaseName)
+		if err != nil {
+			return statErr(err.Error())
+		}
+		cipherPath = filepath.Join(cipherDirPath, entry.Name())
 	}
 	item, err := f.fsAccessor.Stat(cipherPath)
 	if err != nil {
-- 
2.43.0


From 0a4c03b18d2a76ad266509a2906cd1bc02b09442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:05 +0000
Subject: [PATCH 10/15] fix: fail instead of panicking on an empty password

---
 filetree/filetree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index d2bf389..f73f11c 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -53,6 +53,10 @@ func Init(
 	numWorkers int,
 	fsAccessor FSAccessor,
 ) (*FileTree, error) {
+	// LoadAndDecrypt returns no key for an empty password.
+	if len(password) == 0 {
+		return nil, errors.New("empty password")
+	}
 	confPath := filepath.Join(encryptedRoot, "gocryptfs.conf")
 	confBytes, err := fsAccessor.ReadFile(confPath)
 	if err != nil {
-- 
2.43.0


From fd310a865030612a1eb62a89b21f91d2d16120c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:05 +0000
Subject: [PATCH 11/15] fix: reject a wrapped master key of the wrong length

An empty or all-zero wrapped key was accepted without authentication.
---
 gocrypt/configfile/config_file.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gocrypt/configfile/config_file.go b/gocrypt/configfile/config_file.go
index 1c96611..c8f79d7 100644
--- a/gocrypt/configfile/config_file.go
+++ b/gocrypt/configfile/config_file.go
@@ -237,6 +237,10 @@ func (cf *ConfFile) DecryptMasterKey(password []byte) (masterkey []byte, err err
 		tlog.Warn.Printf("failed to unlock master key: %s", err.Error())
 		return nil, exitcodes.NewErr("Password incorrect.", exitcodes.PasswordIncorrect)
 	}
+	// DecryptBlock passes empty and all-zero blocks without authentication.
+	if len(masterkey) != cryptocore.KeyLen {
+		return nil, fmt.Errorf("Wrong master key length: %d", len(masterkey))
+	}
 	return masterkey, nil
 }
 
-- 
2.43.0


From 72b3931989fcf0b560d98cf85a699e2416ddc206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:05 +0000
Subject: [PATCH 12/15] fix: refuse to start with an incomplete config

Missing proxy credentials meant that empty ones were accepted.
---
 main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.go b/main.go
index 75f3aa5..7bf7662 100644
--- a/main.go
+++ b/main.go
@@ -42,6 +42,9 @@ func main() {
 	if err != nil {
 		log.Fatalln("error loading config file:", err)
 	}
+	if err := cfg.Validate(); err != nil {
+		log.Fatalln("invalid config:", err)
+	}
 
 	// An SSH server is represented by a ServerConfig, which holds
 	// certificate details and handles authentication of ServerConns.
-- 
2.43.0


From b833cd2e18ff7e974c6a553579c935970ea83083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:05 +0000
Subject: [PATCH 13/15] fix: do not crash on a private key file that is not PEM

---
 config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index e1461f9..cf9b8fe 100644
--- a/config/config.go
+++ b/config/config.go
@@ -89,7 +89,7 @@ func (c *Config) LoadSSHKey() (ssh.Signer, error) {
 
 func isPrivateKeyEncrypted(key []byte) bool {
 	block, _ := pem.Decode(key)
-	return x509.IsEncryptedPEMBlock(block)
+	return block != nil && x509.IsEncryptedPEMBlock(block)
 }
 
 func (c *Config) GetDecrpytionPassphrase() ([]byte, error) {
-- 
2.43.0


From c3ede3f591543b4c3c6922f4c71c3e7475376830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:05 +0000
Subject: [PATCH 14/15] fix: do not crash on a subsystem request with a short
 payload

---
 main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.go b/main.go
index 7bf7662..9d26c22 100644
--- a/main.go
+++ b/main.go
@@ -154,6 +154,9 @@ func handleChannel(newChannel ssh.NewChannel, reqHandlers sftp.Handlers, logger
 			ok := false
 			switch req.Type {
 			case "subsystem":
+				if len(req.Payload) < 4 {
+					break
+				}
 				logger.Printf("Subsystem: %s\n", req.Payload[4:])
 				if string(req.Payload[4:]) == "sftp" {
 					ok = true
-- 
2.43.0


From a780e0bd7d049cf0fcadd6388c2c2f7bee99cb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:02 +0000
Subject: [PATCH 15/15] fix: do not let a client that stalls in its handshake
 block all others

---
 main.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/main.go b/main.go
index 9d26c22..f0ca0f5 100644
--- a/main.go
+++ b/main.go
@@ -105,20 +105,26 @@ func main() {
 			logger.Println("failed to accept incoming connection", err)
 			continue
 		}
-		// Before use, a handshake must be performed on the incoming
-		// net.Conn.
-		_, chans, reqs, err := ssh.NewServerConn(nConn, sshConfig)
-		if err != nil {
-			logger.Println("failed to handshake", err)
-			continue
-		}
-		logger.Println("SSH server established")
-
-		// The incoming Request channel must be serviced.
-		go ssh.DiscardRequests(reqs)
+		go handleConn(nConn, sshConfig, reqHandlers, logger)
+	}
+}
 
-		go handleChannels(chans, reqHandlers, logger)
+// handleConn runs on its own: a client that stalls in the handshake must not
+// keep others from connecting.
+func handleConn(nConn net.Conn, sshConfig *ssh.ServerConfig, reqHandlers sftp.Handlers, logger *log.Logger) {
+	// Before use, a handshake must be performed on the incoming
+	// net.Conn.
+	_, chans, reqs, err := ssh.NewServerConn(nConn, sshConfig)
+	if err != nil {
+		logger.Println("failed to handshake", err)
+		return
 	}
+	logger.Println("SSH server established")
+
+	// The incoming Request channel must be serviced.
+	go ssh.DiscardRequests(reqs)
+
+	handleChannels(chans, reqHandlers, logger)
 }
 
 func handleChannels(chans <-chan ssh.NewChannel, reqHandlers sftp.Handlers, logger *log.Logger) {
-- 
2.43.0

