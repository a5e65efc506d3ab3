From 1ebf54a5adefc324f8f68293a15cc7d306bc8798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 01/21] fix: base64: Encoder.Write reports every byte it takes

---
 base64/coding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base64/coding.go b/base64/coding.go
index a309128..1d6f4a1 100644
--- a/base64/coding.go
+++ b/base64/coding.go
@@ -69,8 +69,8 @@ func (w *Encoder) Write(p []byte) (int, error) {
 				}
 				w.line = 0
 			}
-			written += 3
 		}
+		written++
 	}
 
 	return written, nil
-- 
2.43.0


From 04fd33fa5c9c5542f09eaf1d156d3e22d43a0a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 02/21] fix: base64: Decoder.Read honours buffer sizes, short
 reads and end of input

---
 base64/coding.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/base64/coding.go b/base64/coding.go
index 1d6f4a1..affb4c7 100644
--- a/base64/coding.go
+++ b/base64/coding.go
@@ -78,7 +78,8 @@ func (w *Encoder) Write(p []byte) (int, error) {
 
 // Decoder is a base64 decoder that handles sources with newlines.
 type Decoder struct {
-	r io.Reader
+	r    io.Reader
+	rest []byte // decoded bytes not yet returned
 }
 
 // NewDecoder returns a new Decoder over a Reader.
@@ -93,6 +94,16 @@ func (r *Decoder) Close() error {
 }
 
 func (r *Decoder) Read(p []byte) (int, error) {
+	if len(p) == 0 {
+		return 0, nil
+	}
+
+	if len(r.rest) > 0 {
+		n := copy(p, r.rest)
+		r.rest = r.rest[n:]
+		return n, nil
+	}
+
 	enclen := base64.StdEncoding.EncodedLen(len(p))
 	buf := make([]byte, 0, enclen)
 	c := make([]byte, 1)
@@ -103,7 +114,7 @@ func (r *Decoder) Read(p []byte) (int, error) {
 			break
 		}
 
-		_, err := r.r.Read(c)
+		_, err := io.ReadFull(r.r, c)
 		if err != nil {
 			if err == io.EOF {
 				break
@@ -119,5 +130,18 @@ func (r *Decoder) Read(p []byte) (int, error) {
 		n++
 	}
 
-	return base64.StdEncoding.Decode(p, buf)
+	if n == 0 {
+		return 0, io.EOF
+	}
+
+	// The last group may decode to more bytes than p has room for.
+	out := make([]byte, base64.StdEncoding.DecodedLen(len(buf)))
+	n, err := base64.StdEncoding.Decode(out, buf)
+	if err != nil {
+		return 0, err
+	}
+
+	m := copy(p, out[:n])
+	r.rest = out[m:n]
+	return m, nil
 }
-- 
2.43.0


From e3ce6c679da36f639e1b0950a4ee3810ab0c7072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 03/21] fix: signify: reject signature files of the wrong
 length

---
 signify/signature.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/signify/signature.go b/signify/signature.go
index 9308cf7..8985f77 100644
--- a/signify/signature.go
+++ b/signify/signature.go
@@ -2,6 +2,7 @@ package signify
 
 import (
 	"bytes"
+	"fmt"
 	"io/ioutil"
 
 	"golang.org/x/crypto/ed25519"
@@ -25,6 +26,10 @@ func (sig *Signature) encode() []byte {
 }
 
 func readSignatureData(data []byte) (*Signature, error) {
+	if len(data) != (keyAlgoLength + keyNumLength + signatureLength) {
+		return nil, fmt.Errorf("signify: invalid signature length %d", len(data))
+	}
+
 	sig := &Signature{}
 	copy(sig.pkAlgo[:], data[:2])
 	copy(sig.keyNum[:], data[2:keyNumLength+2])
-- 
2.43.0


From f048e67864bfe3a1fa18ac3da5c87614d07a4929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 04/21] fix: signify: reject secret key files of the wrong
 length

---
 signify/key.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 7e49e25..2c1641f 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -26,6 +26,7 @@ const (
 	kdfAlgoLength   = 2
 	saltLength      = 16
 	checksumLength  = 8
+	kdfRoundsLength = 4
 	kdfRounds       = 42
 )
 
@@ -134,6 +135,10 @@ func (priv *Private) sign(message []byte) (*Signature, error) {
 }
 
 func readPrivateKeyData(data []byte) (*Private, error) {
+	if len(data) != (keyAlgoLength + kdfAlgoLength + kdfRoundsLength + saltLength + checksumLength + keyNumLength + secretKeyLength) {
+		return nil, fmt.Errorf("signify: invalid private key length %d", len(data))
+	}
+
 	buf := bytes.NewBuffer(data)
 	priv := &Private{}
 
-- 
2.43.0


From 70f1da4c76c9c65f206970b9f12c03a42c5b33b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 05/21] fix: signify: reject keys with an unknown algorithm

---
 signify/key.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 2c1641f..4b18bb1 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -177,6 +177,10 @@ func readPrivateKeyData(data []byte) (*Private, error) {
 		return nil, err
 	}
 
+	if string(priv.keyAlgo[:]) != "Ed" {
+		return nil, errors.New("signify: unknown key algo " + string(priv.keyAlgo[:]))
+	}
+
 	return priv, nil
 }
 
@@ -324,6 +328,10 @@ func (pub *Public) ToBox() (*[32]byte, error) {
 	var oneMinusY = &edwards25519.FieldElement{}
 	var x = &edwards25519.FieldElement{}
 
+	if string(pub.keyAlgo[:]) != "Ed" {
+		return nil, errors.New("signify: not an Ed25519 public key")
+	}
+
 	edpub := [32]byte{}
 	copy(edpub[:], pub.key[:])
 
-- 
2.43.0


From f4b48b8e55178e3c50cfca25d66b2bd290e90a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:39 +0000
Subject: [PATCH 06/21] fix: signify: refuse unencrypted keys that fail their
 checksum

---
 signify/key.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/signify/key.go b/signify/key.go
index 4b18bb1..923c3e0 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -98,7 +98,7 @@ func (priv *Private) Check() error {
 
 func (priv *Private) decrypt(password []byte) error {
 	if !priv.IsEncrypted() {
-		return nil
+		return priv.Check()
 	}
 
 	if string(priv.kdfAlgo[:]) != "BK" {
@@ -228,6 +228,11 @@ func Sign(privatePath, messagePath, signaturePath string) error {
 		}
 	}
 
+	err = priv.Check()
+	if err != nil {
+		return err
+	}
+
 	message, err := ioutil.ReadFile(messagePath)
 	if err != nil {
 		return err
-- 
2.43.0


From d19aee0614f86de83fc8b1e38cf7b7610e302e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:39 +0000
Subject: [PATCH 07/21] fix: signify: a wrong passphrase leaves the key intact

---
 signify/key.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 923c3e0..914f021 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -116,6 +116,10 @@ func (priv *Private) decrypt(password []byte) error {
 
 	err = priv.Check()
 	if err != nil {
+		// leave the key as it was, so that it can be tried again
+		for i := range priv.key[:] {
+			priv.key[i] ^= xorkey[i]
+		}
 		return err
 	}
 
-- 
2.43.0


From a7a753d36b7fd9e5d1f0bd81d051d7d556fdc549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:39 +0000
Subject: [PATCH 08/21] fix: signify: secret key files are private to their
 owner

---
 signify/common.go | 5 +++--
 signify/key.go    | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/signify/common.go b/signify/common.go
index eb8cbd2..5a2a02a 100644
--- a/signify/common.go
+++ b/signify/common.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"encoding/base64"
 	"io/ioutil"
+	"os"
 	"strings"
 )
 
@@ -48,7 +49,7 @@ func readDataFileBytes(data []byte) (*dataFile, error) {
 	return dat, nil
 }
 
-func writeDataFile(path, comment string, data []byte) error {
+func writeDataFile(path, comment string, data []byte, perm os.FileMode) error {
 	encoded := make([]byte, base64.StdEncoding.EncodedLen(len(data)))
 	base64.StdEncoding.Encode(encoded, data)
 	dataFile := &dataFile{
@@ -56,7 +57,7 @@ func writeDataFile(path, comment string, data []byte) error {
 		data:    encoded,
 	}
 
-	return ioutil.WriteFile(path, dataFile.Encode(), 0644)
+	return ioutil.WriteFile(path, dataFile.Encode(), perm)
 }
 
 func zero(buf *[]byte) {
diff --git a/signify/key.go b/signify/key.go
index 914f021..3675278 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -253,7 +253,7 @@ func Sign(privatePath, messagePath, signaturePath string) error {
 
 	pubKeyPath := strings.TrimSuffix(privatePath, ".sec") + ".pub"
 	comment := "untrusted comment: verify with " + filepath.Base(pubKeyPath)
-	err = writeDataFile(signaturePath, comment, sig.encode())
+	err = writeDataFile(signaturePath, comment, sig.encode(), 0644)
 	if err != nil {
 		return err
 	}
@@ -495,12 +495,12 @@ func GenerateKey(keyPath string, passphrase []byte, opts *GenerateOptions) error
 		return err
 	}
 
-	err = writeDataFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode())
+	err = writeDataFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode(), 0600)
 	if err != nil {
 		return err
 	}
 
-	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode())
+	err = writeDataFile(keyPath+".pub", "untrusted comment: signify public key", pub.encode(), 0644)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From b2858e6ddc9334609087bdd193c80c66a1c7b55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:39 +0000
Subject: [PATCH 09/21] fix: signify: refuse comments that do not fit on one
 line

---
 signify/common.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/signify/common.go b/signify/common.go
index 5a2a02a..8d9da00 100644
--- a/signify/common.go
+++ b/signify/common.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"encoding/base64"
+	"errors"
 	"io/ioutil"
 	"os"
 	"strings"
@@ -50,6 +51,10 @@ func readDataFileBytes(data []byte) (*dataFile, error) {
 }
 
 func writeDataFile(path, comment string, data []byte, perm os.FileMode) error {
+	if strings.Contains(comment, "\n") {
+		return errors.New("signify: comment must be a single line")
+	}
+
 	encoded := make([]byte, base64.StdEncoding.EncodedLen(len(data)))
 	base64.StdEncoding.Encode(encoded, data)
 	dataFile := &dataFile{
-- 
2.43.0


From e7740a2f27e65acea4a7dca89baa713859c9edf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:03 +0000
Subject: [PATCH 10/21] fix: crypto: seal the whole message whatever the sizes
 of reads

---
 crypto/crypto.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index d476fc0..a1599a7 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -97,7 +97,12 @@ func seal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) e
 	chunk := make([]byte, chunkSize)
 	nonce := [24]byte{}
 	for i := 0; i < chunks; i++ {
-		n, err := message.Read(chunk)
+		n := messageLen - i*chunkSize
+		if n > chunkSize {
+			n = chunkSize
+		}
+
+		_, err = io.ReadFull(message, chunk[:n])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 5e89a8b457a63a353bf180a892072ce52b0c0b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:03 +0000
Subject: [PATCH 11/21] fix: crypto: open sealed messages whatever the sizes of
 reads

---
 crypto/crypto.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index a1599a7..cb0847c 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -168,7 +168,10 @@ func open(priv *signify.Private, message io.Reader, w io.Writer) error {
 	}
 
 	header := [headerSize]byte{}
-	n, err := message.Read(header[:])
+	n, err := io.ReadFull(message, header[:])
+	if err == io.ErrUnexpectedEOF {
+		err = nil
+	}
 	if err != nil {
 		return err
 	} else if n != headerSize {
@@ -188,7 +191,11 @@ func open(priv *signify.Private, message io.Reader, w io.Writer) error {
 	chunk := make([]byte, sealedChunkSize)
 	nonce := [24]byte{}
 	for i := uint64(0); i < chunks; i++ {
-		n, err := message.Read(chunk)
+		n, err := io.ReadFull(message, chunk)
+		if err == io.ErrUnexpectedEOF {
+			// the last chunk may be short
+			err = nil
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 54356da4c180a70983154407221066c2a2f2ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:03 +0000
Subject: [PATCH 12/21] fix: crypto: an empty message can be opened again

---
 crypto/crypto.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index cb0847c..3467212 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -51,10 +51,6 @@ func incrementNonce(nonce *[24]byte) error {
 }
 
 func seal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) error {
-	if messageLen == 0 {
-		return nil
-	}
-
 	var shared [32]byte
 	edpub, err := pub.ToBox()
 	if err != nil {
-- 
2.43.0


From a12577e23189f84aa2518a870af2b265c92fc90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:04 +0000
Subject: [PATCH 13/21] fix: crypto: report failures to complete the output
 file

---
 crypto/crypto.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index 3467212..08f02d7 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -152,9 +152,17 @@ func Seal(publicPath, messagePath, encryptedPath string) error {
 	}
 
 	encoder := base64.NewEncoder(encrypted)
-	defer encoder.Close()
+	err = seal(pub, message, messageLen, encoder)
+	if err != nil {
+		return err
+	}
 
-	return seal(pub, message, messageLen, encoder)
+	err = encoder.Close()
+	if err != nil {
+		return err
+	}
+
+	return encrypted.Close()
 }
 
 func open(priv *signify.Private, message io.Reader, w io.Writer) error {
@@ -240,5 +248,10 @@ func Open(privatePath, encryptedPath, messagePath string) error {
 	}
 	defer message.Close()
 
-	return open(priv, decoder, message)
+	err = open(priv, decoder, message)
+	if err != nil {
+		return err
+	}
+
+	return message.Close()
 }
-- 
2.43.0


From 9500b08058a765c02ee267c68f79d7fa03f1e1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 14/21] fix: psignify: a bad command line is a failure

The usage callback ended the process with status 0 for every error in
the flags, so that 'psignify -V' with a misspelt flag reported success
without having verified anything. The flag package's own handling exits
with 2 for an error and 0 for -h.
---
 cmd/psignify/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cmd/psignify/main.go b/cmd/psignify/main.go
index 600a919..88fd9a9 100644
--- a/cmd/psignify/main.go
+++ b/cmd/psignify/main.go
@@ -25,7 +25,6 @@ Usage: %s -S -s seckey -m message [-x sigfile]
 func init() {
 	flag.Usage = func() {
 		usage(os.Stdout)
-		os.Exit(0)
 	}
 }
 
-- 
2.43.0


From 4f9f199ca090b327ac3bbaa98c86e49a7ee4b6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 15/21] fix: psignify: a key pair generated by default is the
 default key pair

Without -p, -G took the default public key file as the base name of the
pair and wrote <user>.pub.sec and <user>.pub.pub, which none of the other
operations look for.
---
 cmd/psignify/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/psignify/main.go b/cmd/psignify/main.go
index 88fd9a9..7b770b3 100644
--- a/cmd/psignify/main.go
+++ b/cmd/psignify/main.go
@@ -76,7 +76,10 @@ func main() {
 	}
 
 	if pubKeyFile == "" && keyBase != "" {
-		pubKeyFile = keyBase + ".pub"
+		pubKeyFile = keyBase
+		if !generate {
+			pubKeyFile += ".pub"
+		}
 	}
 
 	if generate {
-- 
2.43.0


From cf5d21bd99b69655f2961f1fa087ea69ea56a4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:14 +0000
Subject: [PATCH 16/21] fix: refuse data after the last chunk when opening

---
 crypto/crypto.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index 08f02d7..3a51a5b 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -220,6 +220,14 @@ func open(priv *signify.Private, message io.Reader, w io.Writer) error {
 		}
 	}
 
+	// Nothing may follow the last chunk.
+	_, err = io.ReadFull(message, chunk[:1])
+	if err == nil {
+		return errors.New("signify/crypto: trailing data after the last chunk")
+	} else if err != io.EOF {
+		return err
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 794368db3690233b7bfdbbc2b00bafb4aebea226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:15 +0000
Subject: [PATCH 17/21] fix: wipe the passphrase after converting a secret key

---
 signify/key.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/signify/key.go b/signify/key.go
index 3675278..3bc640b 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -270,6 +270,7 @@ func (priv *Private) ToBox() (*[32]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		defer zero(&passphrase)
 
 		err = priv.decrypt(passphrase)
 		if err != nil {
-- 
2.43.0


From b4334d753a3312cdd0b73f045030443a69e62446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:29 +0000
Subject: [PATCH 18/21] fix: wipe the passphrase when its confirmation fails

---
 signify/key.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 3bc640b..f74dd85 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -47,12 +47,14 @@ var PassphrasePrompt = func(confirm bool) ([]byte, error) {
 	fmt.Printf("Confirm password: ")
 	confirmPassphrase, err := terminal.ReadPassword(0)
 	if err != nil {
+		zero(&passphrase)
 		return nil, err
 	}
 	defer zero(&confirmPassphrase)
 	fmt.Println()
 
 	if !bytes.Equal(passphrase, confirmPassphrase) {
+		zero(&passphrase)
 		return nil, errors.New("passphrases don't match")
 	}
 
-- 
2.43.0


From 609b8c2f75e777334240b5066ef141e844b15add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 19/21] fix: crypto: refuse to seal a message that is longer
 than its size

---
 crypto/crypto.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index 3a51a5b..8402541 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -115,6 +115,15 @@ func seal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) e
 		}
 	}
 
+	// The header tells the size: a message that is longer (one that has
+	// grown, or a pipe, whose size is not known) can't be sealed.
+	_, err = io.ReadFull(message, chunk[:1])
+	if err == nil {
+		return errors.New("signify/crypto: the message is longer than its size")
+	} else if err != io.EOF {
+		return err
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 025af4cf88dae0e1f053a5cd58eec869f714d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:18 +0000
Subject: [PATCH 20/21] fix: refuse to write the output over a file that is
 read

Signing, sealing and opening truncated the message, the encrypted file or
a key when the output path named it: sealing or opening a file onto itself
destroyed it.
---
 crypto/crypto.go  | 33 +++++++++++++++++++++++++++++++++
 signify/common.go | 23 +++++++++++++++++++++++
 signify/key.go    |  5 +++++
 3 files changed, 61 insertions(+)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index 8402541..32a7a25 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -127,6 +127,29 @@ func seal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) e
 	return nil
 }
 
+// checkOutput refuses to write over a file that is read.
+func checkOutput(path string, inputs ...string) error {
+	out, err := os.Stat(path)
+	if os.IsNotExist(err) {
+		return nil
+	} else if err != nil {
+		return err
+	}
+
+	for _, input := range inputs {
+		in, err := os.Stat(input)
+		if err != nil {
+			return err
+		}
+
+		if out.Mode().IsRegular() && os.SameFile(in, out) {
+			return errors.New("signify/crypto: refusing to overwrite " + input)
+		}
+	}
+
+	return nil
+}
+
 // Seal secures a message.
 func Seal(publicPath, messagePath, encryptedPath string) error {
 	pub, err := signify.LoadPublicKey(publicPath)
@@ -150,6 +173,11 @@ func Seal(publicPath, messagePath, encryptedPath string) error {
 		encryptedPath = messagePath + ".enc"
 	}
 
+	err = checkOutput(encryptedPath, publicPath, messagePath)
+	if err != nil {
+		return err
+	}
+
 	encrypted, err := os.Create(encryptedPath)
 	if err != nil {
 		return err
@@ -259,6 +287,11 @@ func Open(privatePath, encryptedPath, messagePath string) error {
 
 	decoder := base64.NewDecoder(encrypted)
 
+	err = checkOutput(messagePath, privatePath, encryptedPath)
+	if err != nil {
+		return err
+	}
+
 	message, err := os.Create(messagePath)
 	if err != nil {
 		return err
diff --git a/signify/common.go b/signify/common.go
index 8d9da00..3e13365 100644
--- a/signify/common.go
+++ b/signify/common.go
@@ -65,6 +65,29 @@ func writeDataFile(path, comment string, data []byte, perm os.FileMode) error {
 	return ioutil.WriteFile(path, dataFile.Encode(), perm)
 }
 
+// checkOutput refuses to write over a file that is read.
+func checkOutput(path string, inputs ...string) error {
+	out, err := os.Stat(path)
+	if os.IsNotExist(err) {
+		return nil
+	} else if err != nil {
+		return err
+	}
+
+	for _, input := range inputs {
+		in, err := os.Stat(input)
+		if err != nil {
+			return err
+		}
+
+		if out.Mode().IsRegular() && os.SameFile(in, out) {
+			return errors.New("signify: refusing to overwrite " + input)
+		}
+	}
+
+	return nil
+}
+
 func zero(buf *[]byte) {
 	if buf == nil {
 		return
diff --git a/signify/key.go b/signify/key.go
index f74dd85..5db7429 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -253,6 +253,11 @@ func Sign(privatePath, messagePath, signaturePath string) error {
 		return err
 	}
 
+	err = checkOutput(signaturePath, privatePath, messagePath)
+	if err != nil {
+		return err
+	}
+
 	pubKeyPath := strings.TrimSuffix(privatePath, ".sec") + ".pub"
 	comment := "untrusted comment: verify with " + filepath.Base(pubKeyPath)
 	err = writeDataFile(signaturePath, comment, sig.encode(), 0644)
-- 
2.43.0


From ffc26508754b1867f2f7d0ca1b49419e26ea6c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:44 +0000
Subject: [PATCH 21/21] fix: base64: refuse data after the padding

---
 base64/coding.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/base64/coding.go b/base64/coding.go
index affb4c7..a245d40 100644
--- a/base64/coding.go
+++ b/base64/coding.go
@@ -2,7 +2,9 @@
 package base64
 
 import (
+	"bytes"
 	"encoding/base64"
+	"errors"
 	"io"
 )
 
@@ -78,8 +80,9 @@ func (w *Encoder) Write(p []byte) (int, error) {
 
 // Decoder is a base64 decoder that handles sources with newlines.
 type Decoder struct {
-	r    io.Reader
-	rest []byte // decoded bytes not yet returned
+	r      io.Reader
+	rest   []byte // decoded bytes not yet returned
+	padded bool   // the padding, which ends the text, was decoded
 }
 
 // NewDecoder returns a new Decoder over a Reader.
@@ -141,6 +144,11 @@ func (r *Decoder) Read(p []byte) (int, error) {
 		return 0, err
 	}
 
+	if r.padded && n > 0 {
+		return 0, errors.New("base64: data after the padding")
+	}
+	r.padded = r.padded || bytes.IndexByte(buf, '=') >= 0
+
 	m := copy(p, out[:n])
 	r.rest = out[m:n]
 	return m, nil
-- 
2.43.0

