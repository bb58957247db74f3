From d73749a178d7291b29bc4cd9c108da8798e4c325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 01/29] fix: event: remove exactly the unsubscribed case from a
 feed

caseList.delete appended the prefix again instead of the suffix, so
unsubscribing dropped other subscribers and kept the removed one.
---
 event/feed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event/feed.go b/event/feed.go
index 28e5a8f..9e48d87 100644
--- a/event/feed.go
+++ b/event/feed.go
@@ -205,7 +205,7 @@ func (cs caseList) find(channel interface{}) int {
 
 // delete 从 cs 中移除给定的 case。
 func (cs caseList) delete(index int) caseList {
-	return append(cs[:index], cs[:index+1]...)
+	return append(cs[:index], cs[index+1:]...)
 }
 
 // deactivate 将索引处的案例移动到 cs 切片的不可访问部分。
-- 
2.43.0


From 7f9130c392c7c2e2f37b5045b759dfdee2563739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 02/29] fix: event: do not hold the feed locks while Send(nil)
 panics

---
 event/feed.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/event/feed.go b/event/feed.go
index 9e48d87..f3452d6 100644
--- a/event/feed.go
+++ b/event/feed.go
@@ -111,6 +111,7 @@ func (f *Feed) remove(sub *feedSub) {
 // 它返回值被发送到的订阅者的数量。
 func (f *Feed) Send(value interface{}) (nsent int) {
 	rvalue := reflect.ValueOf(value)
+	rtyp := rvalue.Type() // 在获取发送锁之前求值，Send(nil) 的恐慌不会占用锁。
 
 	f.once.Do(f.init)
 	<-f.sendLock
@@ -120,10 +121,10 @@ func (f *Feed) Send(value interface{}) (nsent int) {
 	f.sendCases = append(f.sendCases, f.inbox...)
 	f.inbox = nil
 
-	if !f.typecheck(rvalue.Type()) {
+	if !f.typecheck(rtyp) {
 		f.sendLock <- struct{}{}
 		f.mu.Unlock()
-		panic(feedTypeError{op: "Send", got: rvalue.Type(), want: f.etype})
+		panic(feedTypeError{op: "Send", got: rtyp, want: f.etype})
 	}
 	f.mu.Unlock()
 
-- 
2.43.0


From 769a7b2830b336f5dc0803347a95d331f9211390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 03/29] fix: event: let FeedOf of an interface type send nil

reflect.ValueOf(nil interface) is the zero Value, on which TrySend panics
with the send lock held.
---
 event/feedof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event/feedof.go b/event/feedof.go
index 1d001a8..03b4dae 100644
--- a/event/feedof.go
+++ b/event/feedof.go
@@ -72,7 +72,7 @@ func (f *FeedOf[T]) remove(sub *feedOfSub[T]) {
 // Send 同时传送到所有订阅的频道。
 // 它返回值被发送到的订阅者的数量。
 func (f *FeedOf[T]) Send(value T) (nsent int) {
-	rvalue := reflect.ValueOf(value)
+	rvalue := reflect.ValueOf(&value).Elem() // T 可以是接口类型，value 可以是 nil
 
 	f.once.Do(f.init)
 	<-f.sendLock
-- 
2.43.0


From ecefb345fc2cd6dad13bc37d0089eff9e5f460b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 04/29] fix: event: Resubscribe: do not block Unsubscribe after
 the loop has ended

---
 event/subscription.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event/subscription.go b/event/subscription.go
index 2ea9897..cc24bf9 100644
--- a/event/subscription.go
+++ b/event/subscription.go
@@ -103,7 +103,7 @@ func ResubscribeErr(backoffMax time.Duration, fn ResubscribeErrFunc) Subscriptio
 		backoffMax: backoffMax,
 		fn:         fn,
 		err:        make(chan error),
-		unsub:      make(chan struct{}),
+		unsub:      make(chan struct{}, 1),
 	}
 	go s.loop()
 	return s
-- 
2.43.0


From ad5e195352457d7b6cf9e930b55c31dcc9f1ac69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 05/29] fix: event: Resubscribe: end a subscription that fn
 established during Unsubscribe

---
 event/subscription.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/event/subscription.go b/event/subscription.go
index cc24bf9..c06e0f2 100644
--- a/event/subscription.go
+++ b/event/subscription.go
@@ -175,6 +175,9 @@ func (s *resubscribeSub) subscribe() Subscription {
 		case <-s.unsub:
 			cancel()
 			<-subscribed// 避免泄露 s.fn goroutine。
+			if sub != nil {
+				sub.Unsubscribe()
+			}
 			return nil
 		}
 	}
-- 
2.43.0


From 94d0c0d74ff7bdbfc1bd9f5f84cac843e43190d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 06/29] fix: common/math: PaddedBigBytes pads to the requested
 length

---
 common/math/big.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/math/big.go b/common/math/big.go
index 4d7df93..2d78daf 100644
--- a/common/math/big.go
+++ b/common/math/big.go
@@ -138,10 +138,10 @@ func FirstBitSet(v *big.Int) int {
 // PaddedBigBytes 将大整数编码为大端字节切片。长度
 // 切片至少有 n 个字节。
 func PaddedBigBytes(bigint *big.Int, n int) []byte {
-	if bigint.BitLen()/8 >= 8 {
+	if bigint.BitLen()/8 >= n {
 		return bigint.Bytes()
 	}
-	ret := make([]byte, 8)
+	ret := make([]byte, n)
 	ReadBits(bigint, ret)
 	return ret
 }
-- 
2.43.0


From 8daf07aa7b2649a423fc5ed08acf28b6b57c20f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 07/29] fix: common/math: Exp leaves its base unchanged, as
 documented

---
 common/math/big.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/math/big.go b/common/math/big.go
index 2d78daf..410cc10 100644
--- a/common/math/big.go
+++ b/common/math/big.go
@@ -218,14 +218,15 @@ func S256(x *big.Int) *big.Int {
 //
 // 由@karalabe 和@chfast 提供
 func Exp(base, exponent *big.Int) *big.Int {
+	copyBase := new(big.Int).Set(base)
 	result := big.NewInt(1)
 
 	for _, word := range exponent.Bits() {
 		for i := 0; i < wordBits; i++ {
 			if word&1 == 1 {
-				U256(result.Mul(result, base))
+				U256(result.Mul(result, copyBase))
 			}
-			U256(base.Mul(base, base))
+			U256(copyBase.Mul(copyBase, copyBase))
 			word >>= 1
 		}
 	}
-- 
2.43.0


From 0a2a2e773a4b66e79e4142297a26f9425449bec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 08/29] fix: common/hexutil: DecodeUint64 reports
 ErrUint64Range for numbers over 64 bits

---
 common/hexutil/hexutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/hexutil/hexutil.go b/common/hexutil/hexutil.go
index 35ced3d..c6e6941 100644
--- a/common/hexutil/hexutil.go
+++ b/common/hexutil/hexutil.go
@@ -212,7 +212,7 @@ func mapError(err error) error {
 	if err, ok := err.(*strconv.NumError); ok {
 		switch err.Err {
 		case strconv.ErrRange:
-			return ErrUintRange
+			return ErrUint64Range
 		case strconv.ErrSyntax:
 			return ErrSyntax
 		}
-- 
2.43.0


From 2512273a65b6d2d76567d5ac29858c5f7b5a3bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 09/29] fix: common/hexutil: number decoders report an empty
 string as ErrEmptyString

---
 common/hexutil/hexutil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/hexutil/hexutil.go b/common/hexutil/hexutil.go
index c6e6941..3bcd891 100644
--- a/common/hexutil/hexutil.go
+++ b/common/hexutil/hexutil.go
@@ -174,7 +174,7 @@ func EncodeBig(bigint *big.Int) string {
  
 func checkNumber(input string) (raw string, err error) {
 	if len(input) == 0 {
-		return "", ErrEmptyNumber
+		return "", ErrEmptyString
 	}
 	if !has0xPrefix(input) {
 		return "", ErrMissingPrefix
-- 
2.43.0


From 14ce4c211f02bfdbec6b4b36de888d70c30096a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 10/29] fix: common: MixedcaseAddress.MarshalJSON does not
 double an 0X prefix

---
 common/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/types.go b/common/types.go
index cc36bd3..6ff3a9a 100644
--- a/common/types.go
+++ b/common/types.go
@@ -385,7 +385,7 @@ func (ma *MixedcaseAddress) UnmarshalJSON(input []byte) error {
 
 // MarshalJSON 编组原始值
 func (ma *MixedcaseAddress) MarshalJSON() ([]byte, error) {
-	if strings.HasPrefix(ma.original, "0x") || strings.HasPrefix(ma.original, "0x") {
+	if strings.HasPrefix(ma.original, "0x") || strings.HasPrefix(ma.original, "0X") {
 		return json.Marshal(fmt.Sprintf("0x%s", ma.original[2:]))
 	}
 	return json.Marshal(fmt.Sprintf("0x%s", ma.original))
-- 
2.43.0


From 0048e66bcbf6af36722a45758f98f7d9e58e740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 11/29] fix: common: close the bracket in
 MixedcaseAddress.String

---
 common/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/types.go b/common/types.go
index 6ff3a9a..fa914b1 100644
--- a/common/types.go
+++ b/common/types.go
@@ -401,7 +401,7 @@ func (ma *MixedcaseAddress) String() string {
 	if ma.ValidChecksum() {
 		return fmt.Sprintf("%s [chksum ok]", ma.original)
 	}
-	return fmt.Sprintf("%s [chksum INVALID", ma.original)
+	return fmt.Sprintf("%s [chksum INVALID]", ma.original)
 }
 
 // 如果地址具有有效校验和，则 ValidChecksum 返回 true
-- 
2.43.0


From 08b38d101b57a07561320c135f9a3d4f3d3eb0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 12/29] fix: common/compiler: name the developer documentation
 developerDoc in JSON

---
 common/compiler/helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/compiler/helpers.go b/common/compiler/helpers.go
index ef9b992..951143a 100644
--- a/common/compiler/helpers.go
+++ b/common/compiler/helpers.go
@@ -24,6 +24,6 @@ type ContractInfo struct {
 	SrcMapRuntime string `json:"srcMapRuntime"`
 	AbiDefinition interface{} `json:"abiDefinition"`
 	UserDoc interface{} `json:"userDoc"`
-	DeveloperDoc interface{} `json:"developDoc"`
+	DeveloperDoc interface{} `json:"developerDoc"`
 	Metadata string `json:"metadata"`
 }
\ No newline at end of file
-- 
2.43.0


From d7e6297e35ff804d164fddb176958ace4d396504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 13/29] fix: log: logfmt writes the key of a pair, not its
 value twice

---
 log/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/format.go b/log/format.go
index 6e49762..bca50e1 100644
--- a/log/format.go
+++ b/log/format.go
@@ -169,7 +169,7 @@ func logfmt(buf *bytes.Buffer, ctx []interface{}, color int, term bool) {
 		if !ok {
 			k, v = errorKey, formatLogfmtValue(k, term)
 		} else {
-			k = escapeString(v)
+			k = escapeString(k)
 		}
 
 		// XXX: 我们可能应该检查你所有的关键字节是否无效
-- 
2.43.0


From 844a9134862aa77882c1434b0d63412887fbf3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 14/29] fix: log: print the origin in uncoloured terminal
 output too

---
 log/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/format.go b/log/format.go
index bca50e1..e6c545b 100644
--- a/log/format.go
+++ b/log/format.go
@@ -125,7 +125,7 @@ func TerminalFormat(usecolor bool) Format {
 			if color > 0 {
 				fmt.Fprintf(b, "\x1b[%dm%s\x1b[0m[%s|%s]%s %s ", color, lvl, r.Time.Format(termTimeFormat), location, padding, msg)
 			} else {
-				fmt.Fprintf(b, "%s[%s] %s ", lvl, r.Time.Format(termTimeFormat), msg)
+				fmt.Fprintf(b, "%s[%s|%s]%s %s ", lvl, r.Time.Format(termTimeFormat), location, padding, msg)
 			}
 		} else {
 			if color > 0 {
-- 
2.43.0


From 9b314cd33c9eae86ab8786ea5cb08401eb9798dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 15/29] fix: log: give the root logger a handler before anybody
 sets one

Logging through the root logger dereferenced a nil handler.
---
 log/root.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/log/root.go b/log/root.go
index eeaab79..ac3bc5b 100644
--- a/log/root.go
+++ b/log/root.go
@@ -10,6 +10,10 @@ var (
 	stderrHandler = StreamHandler(os.Stderr, LogfmtFormat())
 )
 
+func init() {
+	root.SetHandler(DiscardHandler())
+}
+
 // New 返回具有给定上下文的新记录器。
 // New 是 Root().New 的一个方便的别名
 func New(ctx ...interface{}) Logger {
-- 
2.43.0


From df021c807bc07dbe258eca56e3f63c22dcc28def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 16/29] fix: crypto/sha3: minInt returns the smaller argument

---
 crypto/sha3/sha3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/sha3/sha3.go b/crypto/sha3/sha3.go
index 36b90a7..c9eba64 100644
--- a/crypto/sha3/sha3.go
+++ b/crypto/sha3/sha3.go
@@ -29,7 +29,7 @@ type digest struct {
 }
 
 func minInt(v1, v2 int) int {
-	if v1 <= v1 {
+	if v1 <= v2 {
 		return v1
 	}
 	return v2
-- 
2.43.0


From 7c4b4d5954f12acfde243ba9497f1aba86295deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 17/29] fix: crypto/sha3: the state holds 25 lanes of 8 bytes

With 64 bytes the rate was zero or negative and every Keccak256 use panicked.
---
 crypto/sha3/sha3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/sha3/sha3.go b/crypto/sha3/sha3.go
index c9eba64..f8b5ac3 100644
--- a/crypto/sha3/sha3.go
+++ b/crypto/sha3/sha3.go
@@ -18,7 +18,7 @@ const sliceSize = 5
 const numLanes = sliceSize * sliceSize
 
 // stateSize 是 SHA3 内部状态的字节大小 (5 * 5 * WSize)
-const stateSize = laneSize * laneSize
+const stateSize = laneSize * numLanes
 
 // 摘要表示校验和的部分评估
 type digest struct {
-- 
2.43.0


From 858bda10583392358b1572da27ba5905cc4695f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 18/29] fix: rlp: only a field after an optional one must be
 optional

---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index 12a7185..9c76c52 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -135,7 +135,7 @@ func ProcessFields(allFields []Field) ([]Field, []Tags, error) {
 			}
 			anyOptional = true
 		} else {
-			if !anyOptional {
+			if anyOptional {
 				msg := fmt.Sprintf("must be optional because preceding field %q is optional", firstOptionalName)
 				return nil, nil, TagError{Field: name, Err: msg}
 			}
-- 
2.43.0


From 8147c7c091496d386b1adb98f02212739a044684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 19/29] fix: rlp: recognise the "tail" struct tag

---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index 9c76c52..91d74d6 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -172,7 +172,7 @@ func parseTag(field Field, lastPublic int) (Tags, error) {
 			if ts.Tail {
 				return ts, TagError{Field: name, Tag: t, Err: `also has "tail" tag`}
 			}
-		case "tali":
+		case "tail":
 			ts.Tail = true
 			if field.Index != lastPublic {
 				return ts, TagError{Field: name, Tag: t, Err: "must be on last field"}
-- 
2.43.0


From ad4eafa1acd6d0ba8185eddf326eb2eee72e6b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 20/29] fix: rlp: the "nil" tag takes its kind from the element
 type

---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index 91d74d6..cb43dbf 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -161,7 +161,7 @@ func parseTag(field Field, lastPublic int) (Tags, error) {
 			}
 			switch t {
 			case "nil":
-				ts.NilKind = field.Type.DefaultNilValue()
+				ts.NilKind = field.Type.Elem.DefaultNilValue()
 			case "nilString":
 				ts.NilKind = NilKindString
 			case "nilList":
-- 
2.43.0


From fef14113998e16b87ea4d58860707f081ec10c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 21/29] fix: rlp: separate the field name in TagError

---
 rlp/internal/rlpstruct/rlpstruct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlp/internal/rlpstruct/rlpstruct.go b/rlp/internal/rlpstruct/rlpstruct.go
index cb43dbf..807aeef 100644
--- a/rlp/internal/rlpstruct/rlpstruct.go
+++ b/rlp/internal/rlpstruct/rlpstruct.go
@@ -92,7 +92,7 @@ type TagError struct {
 }
 
 func (e TagError) Error() string {
-	field := "field" + e.Field
+	field := "field " + e.Field
 	if e.StructType != "" {
 		field = e.StructType + "." + e.Field
 	}
-- 
2.43.0


From eaaef68c61dfb00d7064e0fd141031368e567532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:44 +0000
Subject: [PATCH 22/29] fix: crypto: MnemonicEncode takes 8 hex digits per word
 triple for every length

The step was len/8, right only for 64 digits: other lengths overlapped
groups, sliced out of range or never advanced.
---
 crypto/mnemonic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/mnemonic.go b/crypto/mnemonic.go
index d43dc8f..9e5171f 100644
--- a/crypto/mnemonic.go
+++ b/crypto/mnemonic.go
@@ -19,7 +19,7 @@ func MnemonicEncode(message string) []string {
 	var out []string
 	n := int64(len(MnemonicWords))
 
-	for i := 0; i < len(message); i += (len(message) / 8) {
+	for i := 0; i+8 <= len(message); i += 8 {
 		x := message[i : i+8]
 		bit, _ := strconv.ParseInt(x, 16, 64)
 		w1 := (bit % n)
-- 
2.43.0


From 6d8dfbee292f15c68fcea1aa09927001e628c550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:44 +0000
Subject: [PATCH 23/29] fix: log: GlogHandler.SetHandler may be used while
 records are logged

---
 log/handler_glog.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/log/handler_glog.go b/log/handler_glog.go
index 004cf63..e2417b7 100644
--- a/log/handler_glog.go
+++ b/log/handler_glog.go
@@ -59,9 +59,18 @@ func NewGlogHandler(h Handler) *GlogHandler {
 
 // SetHandler updates the handler to write records to the specified sub-handler.
 func (h *GlogHandler) SetHandler(nh Handler) {
+	h.lock.Lock()
+	defer h.lock.Unlock()
 	h.origin = nh
 }
 
+// handler returns the sub-handler records are written to.
+func (h *GlogHandler) handler() Handler {
+	h.lock.RLock()
+	defer h.lock.RUnlock()
+	return h.origin
+}
+
 // pattern contains a filter for the Vmodule option, holding a verbosity level
 // and a file pattern to match.
 type pattern struct {
@@ -199,7 +208,7 @@ func (h *GlogHandler) Log(r *Record) error {
 	}
 	// If the global log level allows, fast track logging
 	if atomic.LoadUint32(&h.level) >= uint32(r.Lvl) {
-		return h.origin.Log(r)
+		return h.handler().Log(r)
 	}
 	// If no local overrides are present, fast track skipping
 	if atomic.LoadUint32(&h.override) == 0 {
@@ -226,7 +235,7 @@ func (h *GlogHandler) Log(r *Record) error {
 		h.lock.Unlock()
 	}
 	if lvl >= r.Lvl {
-		return h.origin.Log(r)
+		return h.handler().Log(r)
 	}
 	return nil
 }
\ No newline at end of file
-- 
2.43.0


From 81baa3a3349c1c0d50f8655a3d02b2d1bb89a608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:25 +0000
Subject: [PATCH 24/29] fix: crypto/sha3: place the last row of the first round
 in the right lanes

The five rotated words of rho/pi were stored one column off, so the
function was not Keccak-f[1600].
---
 crypto/sha3/keccakf.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crypto/sha3/keccakf.go b/crypto/sha3/keccakf.go
index ad56f08..72f243e 100644
--- a/crypto/sha3/keccakf.go
+++ b/crypto/sha3/keccakf.go
@@ -115,15 +115,15 @@ func keccakF1600(a *[25]uint64) {
 		a[4] = bc4 ^ (bc1 &^ bc0)
 
 		t = a[15] ^ d0
-		bc2 = t<<41 | t>>(64-41)
+		bc3 = t<<41 | t>>(64-41)
 		t = a[21] ^ d1
-		bc3 = t<<2 | t>>(64-2)
+		bc4 = t<<2 | t>>(64-2)
 		t = a[2] ^ d2
-		bc4 = t<<62 | t>>(64-62)
+		bc0 = t<<62 | t>>(64-62)
 		t = a[8] ^ d3
-		bc0 = t<<55 | t>>(64-55)
+		bc1 = t<<55 | t>>(64-55)
 		t = a[14] ^ d4
-		bc1 = t<<39 | t>>(64-39)
+		bc2 = t<<39 | t>>(64-39)
 		a[15] = bc0 ^ (bc2 &^ bc1)
 		a[21] = bc1 ^ (bc3 &^ bc2)
 		a[2] = bc2 ^ (bc4 &^ bc3)
-- 
2.43.0


From d8ec19802c25167bf33f7254d75973860ab520e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:35 +0000
Subject: [PATCH 25/29] fix: crypto: point addition handles equal and opposite
 points and infinity

Add(P, P), Add(P, -P) and scalars at or above the group order divided by
a zero Z coordinate: ModInverse returned nil and the next Mul panicked.
---
 crypto/curve.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/crypto/curve.go b/crypto/curve.go
index cc5c239..d1acb53 100644
--- a/crypto/curve.go
+++ b/crypto/curve.go
@@ -51,6 +51,9 @@ func (BitCurve *BitCurve) IsOnCurve(x, y *big.Int) bool {
 
 //反转雅可比变换
 func (BitCurve *BitCurve) affineFromJacobian(x, y, z *big.Int) (xOut, yOut *big.Int) {
+	if z.Sign() == 0 {
+		return new(big.Int), new(big.Int) // 无穷远点
+	}
 	zinv := new(big.Int).ModInverse(z, BitCurve.P)
 	zinvsq := new(big.Int).Mul(zinv, zinv)
 
@@ -64,14 +67,30 @@ func (BitCurve *BitCurve) affineFromJacobian(x, y, z *big.Int) (xOut, yOut *big.
 
 //返回 (x1,y1) 和 (x2,y2) 的总和
 func (BitCurve *BitCurve) Add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
-	z := new(big.Int).SetInt64(1)
-	return BitCurve.affineFromJacobian(BitCurve.addJacobian(x1, y1, z, x2, y2, z))
+	z1 := zForAffine(x1, y1)
+	z2 := zForAffine(x2, y2)
+	return BitCurve.affineFromJacobian(BitCurve.addJacobian(x1, y1, z1, x2, y2, z2))
+}
+
+// zForAffine 返回仿射点 (x, y) 的雅可比 Z 值：无穷远点 (0, 0) 为 0，否则为 1。
+func zForAffine(x, y *big.Int) *big.Int {
+	z := new(big.Int)
+	if x.Sign() != 0 || y.Sign() != 0 {
+		z.SetInt64(1)
+	}
+	return z
 }
 
 //在雅可比坐标系中取两点 (x1, y1, z1) 和
 // (x2, y2, z2) 并返回它们的总和，也是雅可比形式。
 func (BitCurve *BitCurve) addJacobian(x1, y1, z1, x2, y2, z2 *big.Int) (*big.Int, *big.Int, *big.Int) {
 	// See http://hyperelliptic.org/EFD/g1p/auto-shortw-jacobian-0.html#addition-add-2007-bl
+	if z1.Sign() == 0 {
+		return new(big.Int).Set(x2), new(big.Int).Set(y2), new(big.Int).Set(z2)
+	}
+	if z2.Sign() == 0 {
+		return new(big.Int).Set(x1), new(big.Int).Set(y1), new(big.Int).Set(z1)
+	}
 	z1z1 := new(big.Int).Mul(z1, z1)
 	z1z1.Mod(z1z1, BitCurve.P)
 	z2z2 := new(big.Int).Mul(z2, z2)
@@ -99,6 +118,9 @@ func (BitCurve *BitCurve) addJacobian(x1, y1, z1, x2, y2, z2 *big.Int) (*big.Int
 	if r.Sign() == -1 {
 		r.Add(r, BitCurve.P)
 	}
+	if h.Sign() == 0 && r.Sign() == 0 {
+		return BitCurve.doubleJacobian(x1, y1, z1) // 两点相等
+	}
 	r.Lsh(r, 1)
 	v := new(big.Int).Mul(u1, i)
 
@@ -135,7 +157,7 @@ func (BitCurve *BitCurve) addJacobian(x1, y1, z1, x2, y2, z2 *big.Int) (*big.Int
 
 //返回2*(x,y)
 func (BitCurve *BitCurve) Double(x1, y1 *big.Int) (*big.Int, *big.Int) {
-	z1 := new(big.Int).SetInt64(1)
+	z1 := zForAffine(x1, y1)
 	return BitCurve.affineFromJacobian(BitCurve.doubleJacobian(x1, y1, z1))
 }
 
-- 
2.43.0


From 03d368107b60c2327a12ebaef29a4e3f63896cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 26/29] fix: a log call with an odd number of arguments no
 longer writes into the caller's slice

---
 log/logger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log/logger.go b/log/logger.go
index 809fb06..95d0962 100644
--- a/log/logger.go
+++ b/log/logger.go
@@ -207,7 +207,7 @@ func normalize(ctx []interface{}) []interface{} {
 	// that things are the right length and users can fix bugs
 	// when they see the output looks wrong
 	if len(ctx)%2 != 0 {
-		ctx = append(ctx, nil, errorKey, "Normalized odd number of arguments by adding nil")
+		ctx = append(ctx[:len(ctx):len(ctx)], nil, errorKey, "Normalized odd number of arguments by adding nil")
 	}
 
 	return ctx
-- 
2.43.0


From e75fcd0884e7d7685e2d36490eec8cce00f95f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:00 +0000
Subject: [PATCH 27/29] fix: end a JSON log record that cannot be encoded with
 its newline like any other

---
 log/format.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/log/format.go b/log/format.go
index e6c545b..e4557c1 100644
--- a/log/format.go
+++ b/log/format.go
@@ -238,7 +238,6 @@ func JSONFormatOrderedEx(pretty, lineSeparated bool) Format {
 			b, _ = jsonMarshal(map[string]string{
 				errorKey: err.Error(),
 			})
-			return b
 		}
 		if lineSeparated {
 			b = append(b, '\n')
@@ -278,7 +277,6 @@ func JSONFormatEx(pretty, lineSeparated bool) Format {
 			b, _ = jsonMarshal(map[string]string{
 				errorKey: err.Error(),
 			})
-			return b
 		}
 
 		if lineSeparated {
-- 
2.43.0


From d8a9f85da371bd50bcb731b328a98b19fcd34285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 28/29] fix: a lazy log value whose function is nil is reported
 as invalid instead of crashing the log call

---
 log/handler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/log/handler.go b/log/handler.go
index 82a60f6..5d838a2 100644
--- a/log/handler.go
+++ b/log/handler.go
@@ -280,8 +280,9 @@ func LazyHandler(h Handler) Handler {
 
 func evaluateLazy(lz Lazy) (interface{}, error) {
 	t := reflect.TypeOf(lz.Fn)
+	value := reflect.ValueOf(lz.Fn)
 
-	if t.Kind() != reflect.Func {
+	if t == nil || t.Kind() != reflect.Func || value.IsNil() {
 		return nil, fmt.Errorf("INVALID_LAZY, not func: %+v", lz.Fn)
 	}
 
@@ -293,7 +294,6 @@ func evaluateLazy(lz Lazy) (interface{}, error) {
 		return nil, fmt.Errorf("INVALID_LAZY, no func return val: %+v", lz.Fn)
 	}
 
-	value := reflect.ValueOf(lz.Fn)
 	results := value.Call([]reflect.Value{})
 	if len(results) == 1 {
 		return results[0].Interface(), nil
-- 
2.43.0


From 3f7efc0a044ffe20580bbc09f26a02f402997a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:20 +0000
Subject: [PATCH 29/29] fix: common: PrettyAge shows an age of exactly one unit
 in that unit

An age of exactly one second was shown as the empty string, one of exactly a
minute as 60s.
---
 common/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/format.go b/common/format.go
index e5cb82e..2a68c0f 100644
--- a/common/format.go
+++ b/common/format.go
@@ -52,7 +52,7 @@ func (t PrettyAge) String() string {
 	// 返回前累加 3 个分量的精度
 	result, prec := "", 0
 	for _, unit := range ageUnits {
-		if diff > unit.Size{
+		if diff >= unit.Size {
 			result = fmt.Sprintf("%s%d%s", result, diff/unit.Size, unit.Symbol)
 			diff %= unit.Size
 
-- 
2.43.0

