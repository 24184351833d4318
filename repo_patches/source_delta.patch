From 219f409039be96cd1b9ddf61a198bb1e9945ac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:07 +0000
Subject: [PATCH 001/105] fix: report a solitary dash that no argument accepts
 instead of panicking

---
 set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set.go b/set.go
index daf8bb5..e3a0988 100644
--- a/set.go
+++ b/set.go
@@ -235,7 +235,7 @@ Parsing:
 				if err != nil {
 					// Not accepted as an argument, possibly a flag per usual out of
 					// order
-					if len(arg) > 0 && arg[0] == '-' && state == flagsOrArgs {
+					if len(arg) > 1 && arg[0] == '-' && state == flagsOrArgs {
 						break
 					}
 					if isHardArgCountErr(err) {
-- 
2.43.0


From bc7951a66716062fe5e18e1866f5958e5c3c2a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:59 +0000
Subject: [PATCH 002/105] fix: report a missing required argument that follows
 another argument

---
 set.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/set.go b/set.go
index e3a0988..faebfdf 100644
--- a/set.go
+++ b/set.go
@@ -165,7 +165,7 @@ func RawParse(arguments []string, b Binding, flags RawParseFlag) (bindings Bindi
 	positionalOpts := newArgBinding(b)
 
 	if args.empty() {
-		err = positionalOpts.Done()
+		err = positionalOpts.finish()
 		return
 	}
 
@@ -373,7 +373,7 @@ Parsing:
 		}
 	}
 
-	err = positionalOpts.Done()
+	err = positionalOpts.finish()
 	return
 }
 
@@ -641,6 +641,18 @@ func (a *argBinding) Done() error {
 	return nil
 }
 
+// finish signals the end of arguments to the current arg and to every arg
+// after it, which have nothing left to take
+func (a *argBinding) finish() error {
+	err := a.Done()
+	for err == nil && a.next() {
+		if err = a.Done(); err != nil {
+			err = argTakerError("<"+a.name()+">", "", err, nil)
+		}
+	}
+	return err
+}
+
 func (a *argBinding) SetArg(arg string, remainder []string, possibleFlag bool) error {
 	for {
 		t := a.current()
-- 
2.43.0


From 82147c497e0f0ae7548caee8f1d0a9f59c145626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:17 +0000
Subject: [PATCH 003/105] fix: args counted as 0 or n no longer take a value
 that looks like a flag

---
 arg.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/arg.go b/arg.go
index 6e2bf70..1bd63d0 100644
--- a/arg.go
+++ b/arg.go
@@ -528,10 +528,13 @@ func (o *optionContext) lookupValue(name string) (any, bool) {
 	return nil, false
 }
 
-func (d *discreteCounter) Take(_ string, _ bool) error {
+func (d *discreteCounter) Take(arg string, possibleFlag bool) error {
 	if d.count == 0 {
 		return EndOfArguments
 	}
+	if allowFlag(arg, possibleFlag) {
+		return argCannotUseFlag
+	}
 	d.count--
 	return nil
 }
@@ -547,10 +550,13 @@ func (d *discreteCounter) Usage() (optional, multi bool) {
 	return false, d.count > 1
 }
 
-func (d *defaultCounter) Take(_ string, _ bool) error {
+func (d *defaultCounter) Take(arg string, possibleFlag bool) error {
 	if d.seen {
 		return EndOfArguments
 	}
+	if !d.requireSeen && allowFlag(arg, possibleFlag) {
+		return argCannotUseFlag
+	}
 	d.seen = true
 	return nil
 }
-- 
2.43.0


From f123b4ddd048550b5ef04dad4482ffa77367b18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:31 +0000
Subject: [PATCH 004/105] fix: keep the value of an unknown long option in the
 remaining arguments

---
 set.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/set.go b/set.go
index faebfdf..ce3a26a 100644
--- a/set.go
+++ b/set.go
@@ -270,6 +270,7 @@ Parsing:
 		// Long option processing
 		if arg[1] == '-' {
 			e := strings.IndexRune(arg, '=')
+			token := arg
 			var value string
 			if e > 0 {
 				value = arg[e+1:]
@@ -282,7 +283,7 @@ Parsing:
 			flag, ok := b.ResolveAlias(arg[2:])
 
 			if !ok {
-				err = unknownOption(arg[2:], prepend(optionName(arg[2:]), args...))
+				err = unknownOption(arg[2:], prepend(token, args...))
 				return
 			}
 
@@ -296,7 +297,7 @@ Parsing:
 			_, opt, _, _ := b.LookupOption(flag)
 			if e < 0 {
 				var outputs []string
-				var oldArgs = prepend(optionName(arg[2:]), args...)
+				var oldArgs = prepend(token, args...)
 				if outputs, err = args.take(flag, opt); err != nil {
 					err = argTakerError(optionName(arg[2:]), "", err, oldArgs)
 					return
-- 
2.43.0


From f16e99db78f5be785a9216bf36ed828c00fdc61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:35 +0000
Subject: [PATCH 005/105] fix: bind args right-to-left correctly when there is
 no program name

---
 set.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index ce3a26a..137be7d 100644
--- a/set.go
+++ b/set.go
@@ -175,6 +175,9 @@ func RawParse(arguments []string, b Binding, flags RawParseFlag) (bindings Bindi
 	// When in RTL mode, identify the first argument to actually fill by
 	// counting the number of arguments required by arguments right-to-left.
 	count := len(arguments)
+	if flags.skipProgramName() {
+		count--
+	}
 	if flags.rightToLeft() {
 		skip := len(pos)
 
@@ -191,7 +194,7 @@ func RawParse(arguments []string, b Binding, flags RawParseFlag) (bindings Bindi
 				count--
 			}
 			skip--
-			if skip == 0 || count <= 1 {
+			if skip == 0 || count <= 0 {
 				break
 			}
 		}
-- 
2.43.0


From 47e871d57acbfffcdaec087d540bf7be1eb0a5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:18 +0000
Subject: [PATCH 006/105] fix: split lists with escaped separators into exactly
 their items

---
 internal/support/support.go | 52 ++++++++++++++++++++++---------------
 value.go                    |  2 +-
 2 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/internal/support/support.go b/internal/support/support.go
index 732845d..2010b1e 100644
--- a/internal/support/support.go
+++ b/internal/support/support.go
@@ -2,7 +2,6 @@ package support
 
 import (
 	"os"
-	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -15,7 +14,7 @@ func ParseMap(values []string) map[string]string {
 
 	var key, value string
 	for _, kvp := range values {
-		k := SplitList(kvp, "=", 2)
+		k := SplitPair(kvp)
 		switch len(k) {
 		case 2:
 			key = k[0]
@@ -41,31 +40,42 @@ func FormatMap(m map[string]string, delim string) string {
 	return strings.Join(items, delim)
 }
 
+// SplitPair splits a name-value pair, in which either part could
+// also contain escaped list separators
+func SplitPair(s string) []string {
+	res := SplitList(s, "=", 2)
+	for i := range res {
+		res[i] = strings.ReplaceAll(res[i], "\\,", ",")
+	}
+	return res
+}
+
 func SplitList(s, sep string, n int) []string {
 	s = strings.TrimSpace(s)
-	if s == "" {
+	if s == "" || n == 0 {
 		return nil
 	}
 	if strings.Contains(s, "\\") {
-		regex := regexp.MustCompile(`(^|[^\\])` + regexp.QuoteMeta(sep))
-		matches := regex.FindAllStringSubmatchIndex(s, n)
-
-		if len(matches) == 0 {
-			return []string{s}
-		}
-
-		unquote := func(x string) string {
-			return strings.ReplaceAll(x, "\\", "")
-		}
-		res := make([]string, 0)
-
-		var last int
-		for _, match := range matches {
-			res = append(res, unquote(s[last:match[1]-1]))
-			res = append(res, unquote(s[match[2]+1+1:]))
-			last = match[2] + 1 + 1
+		var (
+			res     []string
+			current strings.Builder
+			escaped = "\\" + sep
+		)
+		for s != "" {
+			switch {
+			case strings.HasPrefix(s, escaped):
+				current.WriteString(sep)
+				s = s[len(escaped):]
+			case strings.HasPrefix(s, sep) && len(res) != n-1:
+				res = append(res, current.String())
+				current.Reset()
+				s = s[len(sep):]
+			default:
+				current.WriteByte(s[0])
+				s = s[1:]
+			}
 		}
-		return res
+		return append(res, current.String())
 	}
 	return strings.SplitN(s, sep, n)
 }
diff --git a/value.go b/value.go
index 72b88f8..23af2bd 100644
--- a/value.go
+++ b/value.go
@@ -767,7 +767,7 @@ func parseBool(value string) (bool, error) {
 }
 
 func splitValuePair(arg string) (k, v string, hasValue bool) {
-	a := SplitList(arg, "=", 2)
+	a := support.SplitPair(arg)
 	if len(a) == 1 {
 		return a[0], "true", false
 	}
-- 
2.43.0


From ee7b081676e5ee72da6890e62577635af894aef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 007/105] fix: an empty name-value pair no longer panics

---
 value.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/value.go b/value.go
index 23af2bd..235eade 100644
--- a/value.go
+++ b/value.go
@@ -768,6 +768,9 @@ func parseBool(value string) (bool, error) {
 
 func splitValuePair(arg string) (k, v string, hasValue bool) {
 	a := support.SplitPair(arg)
+	if len(a) == 0 {
+		return "", "true", false
+	}
 	if len(a) == 1 {
 		return a[0], "true", false
 	}
-- 
2.43.0


From 992cf762681c0198a76ebfa151a8377c6f7dd435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:35 +0000
Subject: [PATCH 008/105] fix: an invalid bool no longer changes the value

---
 value.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/value.go b/value.go
index 235eade..fe99791 100644
--- a/value.go
+++ b/value.go
@@ -350,12 +350,11 @@ func setCore(dest any, disableSplitting bool, value string) error {
 	case Value:
 		return p.Set(value)
 	case *bool:
-		var err error
-		*p, err = parseBool(value)
-		if err != nil {
-			return err
+		b, err := parseBool(value)
+		if err == nil {
+			*p = b
 		}
-		return nil
+		return err
 	case *string:
 		s := *p
 		if len(s) > 0 {
-- 
2.43.0


From 4b4244199ffaeaaa01f55bbf5b343272fe2d3063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:30 +0000
Subject: [PATCH 009/105] fix: refuse byte lengths with stray text or malformed
 numbers

---
 value/value.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/value/value.go b/value/value.go
index d2ef4ea..773be4a 100644
--- a/value/value.go
+++ b/value/value.go
@@ -42,7 +42,7 @@ func JSON(v any) flag.Getter {
 }
 
 var (
-	byteLengthPat = regexp.MustCompile(`([0-9.]+)\s*([kKMGTPEZYRQ]i?)?B`)
+	byteLengthPat = regexp.MustCompile(`^([0-9.]+)\s*([kKMGTPEZYRQ]i?)?B$`)
 	magnitude     = map[string]int{
 		"":  0,
 		"k": 1,
@@ -74,7 +74,10 @@ func ParseByteLength(s string) (int, error) {
 		return strconv.Atoi(string(sub[1]))
 	}
 
-	num, _ := strconv.ParseFloat(string(sub[1]), 64)
+	num, err := strconv.ParseFloat(string(sub[1]), 64)
+	if err != nil {
+		return -1, fmt.Errorf("invalid byte length")
+	}
 	var base float64 = 1000
 	if strings.HasSuffix(string(sub[2]), "i") {
 		base = 1024
-- 
2.43.0


From 238334c340d50a5a762c731da3bf47cb86bd5678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:35 +0000
Subject: [PATCH 010/105] fix: an invalid hex or octal no longer changes the
 value

---
 value/value.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/value/value.go b/value/value.go
index 773be4a..d75c27c 100644
--- a/value/value.go
+++ b/value/value.go
@@ -97,7 +97,9 @@ func (b *ByteLength) UnmarshalText(data []byte) error {
 
 func (h *Octal) UnmarshalText(d []byte) error {
 	s, err := strconv.ParseInt(strings.TrimPrefix(string(d), "0o"), 8, 64)
-	*h = Octal(s)
+	if err == nil {
+		*h = Octal(s)
+	}
 	return formatStrconvError(err, string(d))
 }
 
@@ -107,7 +109,9 @@ func (h Octal) String() string {
 
 func (h *Hex) UnmarshalText(d []byte) error {
 	s, err := strconv.ParseInt(strings.TrimPrefix(string(d), "0x"), 16, 64)
-	*h = Hex(s)
+	if err == nil {
+		*h = Hex(s)
+	}
 	return formatStrconvError(err, string(d))
 }
 
-- 
2.43.0


From c97abb62604dfb74adbaff8fc3c1b2359a67fce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 011/105] fix: keep empty items that belong to a map value

---
 internal/support/support.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/support/support.go b/internal/support/support.go
index 2010b1e..29c1d4a 100644
--- a/internal/support/support.go
+++ b/internal/support/support.go
@@ -23,6 +23,9 @@ func ParseMap(values []string) map[string]string {
 			// Implies comma was meant to be escaped
 			// -m key=value,s,t  --> interpreted as key=value,s,t rather than s and t keys
 			value = value + "," + k[0]
+		case 0:
+			// Likewise for an empty item
+			value = value + ","
 		}
 		res[key] = value
 	}
-- 
2.43.0


From d329ef5b233612f08b0029c059399fb7d9bcea1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:19 +0000
Subject: [PATCH 012/105] fix: a command's own flags take precedence over
 inherited ones with the same name

---
 set.go | 52 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/set.go b/set.go
index 137be7d..15daece 100644
--- a/set.go
+++ b/set.go
@@ -1,6 +1,7 @@
 package cli
 
 import (
+	"slices"
 	"strings"
 )
 
@@ -16,6 +17,7 @@ type set struct {
 type bindingImpl struct {
 	shortOptions      map[string]string
 	longOptions       map[string]string
+	hiddenNames       map[string]string // names of inherited flags which are aliases of nearer ones
 	positionalOptions []string
 	names             map[string]option
 }
@@ -89,6 +91,7 @@ func NewBinding(flags []*Flag, args []*Arg, parent interface{ Flags() []*Flag })
 		names:        map[string]option{},
 		shortOptions: map[string]string{},
 		longOptions:  map[string]string{},
+		hiddenNames:  map[string]string{},
 
 		positionalOptions: []string{},
 	}
@@ -96,19 +99,21 @@ func NewBinding(flags []*Flag, args []*Arg, parent interface{ Flags() []*Flag })
 		b.defineFlag(f)
 	}
 
+	for _, a := range args {
+		b.defineArg(a)
+	}
+
 	if parent != nil {
-		for _, f := range parent.Flags() {
+		// Inherited flags never hide what the command itself defines, nor
+		// what is defined by a nearer ancestor, which is later in the list
+		for _, f := range slices.Backward(parent.Flags()) {
 			if f.internalFlags().nonPersistent() {
 				continue
 			}
-			b.defineFlag(f)
+			b.inheritFlag(f)
 			f.setInternalFlags(internalFlagPersistent, true)
 		}
 	}
-
-	for _, a := range args {
-		b.defineArg(a)
-	}
 	return b
 }
 
@@ -410,6 +415,9 @@ func (b *bindingImpl) LookupOption(name string) (TransformFunc, ArgCounter, Bind
 }
 
 func (b *bindingImpl) ResolveAlias(name string) (string, bool) {
+	if r, ok := b.hiddenNames[name]; ok {
+		return r, true
+	}
 	if _, ok := b.names[name]; ok {
 		return name, true
 	}
@@ -443,15 +451,39 @@ func (b *bindingImpl) defineFlag(f *Flag) {
 	}
 
 	for _, alias := range f.Aliases {
-		if len(alias) == 1 {
-			b.shortOptions[alias] = name
-		} else {
-			b.longOptions[alias] = name
+		b.defineAlias(alias, name)
+	}
+	b.names[name] = f
+}
+
+func (b *bindingImpl) inheritFlag(f *Flag) {
+	name := f.Name
+	if len(name) == 0 {
+		return
+	}
+	if _, ok := b.names[name]; ok {
+		return
+	}
+
+	for _, alias := range f.Aliases {
+		if _, ok := b.ResolveAlias(alias); !ok {
+			b.defineAlias(alias, name)
 		}
 	}
+	if r, ok := b.ResolveAlias(name); ok && r != name {
+		b.hiddenNames[name] = r
+	}
 	b.names[name] = f
 }
 
+func (b *bindingImpl) defineAlias(alias, name string) {
+	if len(alias) == 1 {
+		b.shortOptions[alias] = name
+	} else {
+		b.longOptions[alias] = name
+	}
+}
+
 func (b *bindingImpl) defineArg(a *Arg) {
 	b.names[a.Name] = a
 	b.positionalOptions = append(b.positionalOptions, a.Name)
-- 
2.43.0


From d93e0ae1db4a573e6cc10a1423adc59c61c2d9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:06 +0000
Subject: [PATCH 013/105] fix: run Before and After of a flag only in the
 command that defines it

---
 context.go | 10 +++-------
 option.go  |  9 ++-------
 set.go     |  1 -
 3 files changed, 5 insertions(+), 15 deletions(-)

diff --git a/context.go b/context.go
index ac1809e..af94b60 100644
--- a/context.go
+++ b/context.go
@@ -1563,13 +1563,9 @@ func (c *Context) setTiming(t Timing) *Context {
 
 func triggerOptionsHO(t Timing, on func(*Context) error) ActionFunc {
 	return func(ctx *Context) error {
-		for _, f := range ctx.Flags() {
-			if f.internalFlags().persistent() {
-				// This is a persistent flag that was cloned into the flag set of the current
-				// command; don't process it again
-				continue
-			}
-
+		// Flags inherited from ancestors are processed by the commands which
+		// define them
+		for _, f := range ctx.LocalFlags() {
 			err := on(ctx.newChild(f).setTiming(t))
 			if err != nil {
 				return err
diff --git a/option.go b/option.go
index f9fa999..75c1958 100644
--- a/option.go
+++ b/option.go
@@ -207,9 +207,8 @@ const (
 	internalFlagMerge
 	internalFlagMergeExplicitlyRequested // only set when the user sets Options: cli.Merge explicitly
 	internalFlagRightToLeft
-	internalFlagFlagOnly   // true for Flag without an argument
-	internalFlagOptional   // true if value is optional
-	internalFlagPersistent // true when the option is a clone of a persistent parent flag
+	internalFlagFlagOnly // true for Flag without an argument
+	internalFlagOptional // true if value is optional
 	internalFlagDestinationImplicitlyCreated
 	internalFlagImpliedAction
 	internalFlagSeenImplied
@@ -381,10 +380,6 @@ func (f internalFlags) optional() bool {
 	return f&internalFlagOptional == internalFlagOptional
 }
 
-func (f internalFlags) persistent() bool {
-	return f&internalFlagPersistent == internalFlagPersistent
-}
-
 func (f internalFlags) destinationImplicitlyCreated() bool {
 	return f&internalFlagDestinationImplicitlyCreated == internalFlagDestinationImplicitlyCreated
 }
diff --git a/set.go b/set.go
index 15daece..3b36d46 100644
--- a/set.go
+++ b/set.go
@@ -111,7 +111,6 @@ func NewBinding(flags []*Flag, args []*Arg, parent interface{ Flags() []*Flag })
 				continue
 			}
 			b.inheritFlag(f)
-			f.setInternalFlags(internalFlagPersistent, true)
 		}
 	}
 	return b
-- 
2.43.0


From 5442fe47dd6bf564ea9d1817f6a3097bf1061160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:29 +0000
Subject: [PATCH 014/105] fix: run the Action of an inherited flag once per use

---
 context.go | 22 +++++++++++++++++++++-
 option.go  |  5 +++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index af94b60..e2ff144 100644
--- a/context.go
+++ b/context.go
@@ -2129,7 +2129,19 @@ func executeUserPipeline(at Timing) actionFunc {
 func triggerOptions(ctx *Context) error {
 	// Invoke the Before action on all flags and args, but only the actual
 	// Action when the flag or arg was set
-	for _, f := range ctx.Flags() {
+	for _, f := range ctx.PersistentFlags() {
+		// An ancestor could have already run the action, so run it
+		// again only when this command also set the flag
+		if f.internalFlags().actionExecuted() && !ctx.didSetFlag(f) {
+			continue
+		}
+		err := triggerOption(ctx, f)
+		if err != nil {
+			return err
+		}
+	}
+
+	for _, f := range ctx.LocalFlags() {
 		err := triggerOption(ctx, f)
 		if err != nil {
 			return err
@@ -2147,11 +2159,19 @@ func triggerOptions(ctx *Context) error {
 
 func triggerOption(ctx *Context, f option) error {
 	if f.Seen() || hasSeenImplied(f, ctx.target) {
+		f.setInternalFlags(internalFlagActionExecuted, true)
 		return ctx.newChild(f).executeSelf()
 	}
 	return nil
 }
 
+// didSetFlag gets whether the arguments passed to the current command set the given flag
+func (c *Context) didSetFlag(f *Flag) bool {
+	set := c.internal.(*commandContext).set
+	_, _, opt, ok := set.LookupOption(f.Name)
+	return ok && opt == BindingState(f) && len(set.Bindings(f.Name)) > 0
+}
+
 func hasSeenImplied(f option, parent target) bool {
 	if f.internalFlags().triggerRequested() {
 		return true
diff --git a/option.go b/option.go
index 75c1958..e24036a 100644
--- a/option.go
+++ b/option.go
@@ -221,6 +221,7 @@ const (
 	internalFlagDisableAutoVisibility
 	internalFlagVisibleExplicitlyRequested
 	internalFlagTriggerRequested
+	internalFlagActionExecuted // true when the action of the option has been run
 )
 
 var (
@@ -380,6 +381,10 @@ func (f internalFlags) optional() bool {
 	return f&internalFlagOptional == internalFlagOptional
 }
 
+func (f internalFlags) actionExecuted() bool {
+	return f&internalFlagActionExecuted == internalFlagActionExecuted
+}
+
 func (f internalFlags) destinationImplicitlyCreated() bool {
 	return f&internalFlagDestinationImplicitlyCreated == internalFlagDestinationImplicitlyCreated
 }
-- 
2.43.0


From abb05f2c6f91bf6142fb0bd19d744de4325b43bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:37 +0000
Subject: [PATCH 015/105] fix: stop at the first command-not-found handler that
 handles the command

---
 command.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/command.go b/command.go
index 1c955f7..7d6f99e 100644
--- a/command.go
+++ b/command.go
@@ -189,7 +189,11 @@ func HandleCommandNotFound(fn func(*Context, error) (*Command, error)) Action {
 					if cmd != nil && err == nil {
 						return cmd, nil
 					}
-					return existingFn(c, err)
+					if err == ErrSkipCommand {
+						// Already handled
+						return nil, err
+					}
+					return existingFn(c, cmp.Or(err, err1))
 				}
 			}
 		}
-- 
2.43.0


From 96e4d43405834e760943c220154db8e6ad4d4b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:45 +0000
Subject: [PATCH 016/105] fix: allow an empty argument list when flag parsing
 is skipped

---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index e2ff144..71229f4 100644
--- a/context.go
+++ b/context.go
@@ -191,7 +191,7 @@ func (c *Context) Execute(args []string) error {
 func (c *Context) parse(args []string) *robustParseResult {
 	root := c.Command()
 	set := root.buildSet(c)
-	if root.internalFlags().skipFlagParsing() {
+	if root.internalFlags().skipFlagParsing() && len(args) > 0 {
 		args = append([]string{args[0], "--"}, args[1:]...)
 	}
 
-- 
2.43.0


From 02671e16e106feddffe2b44ac2e5bd2d4c27d06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:01 +0000
Subject: [PATCH 017/105] fix: initialize correctly when flags, args or
 commands are added or removed by their siblings

---
 command.go | 67 +++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 24 deletions(-)

diff --git a/command.go b/command.go
index 7d6f99e..41375e1 100644
--- a/command.go
+++ b/command.go
@@ -614,20 +614,19 @@ func (c *Command) contextName() string {
 
 func initializeFlagsArgs(ctx *Context) error {
 	var (
-		flagStart int
-		argStart  int
-		anyFlags  = true
-		anyArgs   = true
+		visitedFlags = map[*Flag]bool{}
+		visitedArgs  = map[*Arg]bool{}
+		anyFlags     = true
+		anyArgs      = true
 	)
 
 	// New flags and/or args may have been introduced, so allow these to also initialize.
-	// They can ONLY be appended to the slice, not inserted elsewhere
+	// Others could have been removed, and these are no longer initialized.
 	for anyFlags || anyArgs {
-		flags := ctx.LocalFlags()[flagStart:]
-		flagStart = len(ctx.LocalFlags())
+		flags := unvisited(ctx.LocalFlags(), visitedFlags)
 
 		for _, sub := range flags {
-			if sub.internalFlags().initialized() {
+			if sub.internalFlags().initialized() || !slices.Contains(ctx.LocalFlags(), sub) {
 				continue
 			}
 
@@ -644,11 +643,10 @@ func initializeFlagsArgs(ctx *Context) error {
 		}
 		anyFlags = len(flags) > 0
 
-		args := ctx.LocalArgs()[argStart:]
-		argStart = len(ctx.LocalArgs())
+		args := unvisited(ctx.LocalArgs(), visitedArgs)
 
 		for _, sub := range args {
-			if sub.internalFlags().initialized() {
+			if sub.internalFlags().initialized() || !slices.Contains(ctx.LocalArgs(), sub) {
 				continue
 			}
 			err := ctx.newChild(sub).initialize()
@@ -662,26 +660,47 @@ func initializeFlagsArgs(ctx *Context) error {
 	return nil
 }
 
+// unvisited gets the items which were not yet visited and marks them so
+func unvisited[T comparable](items []T, visited map[T]bool) (res []T) {
+	for _, item := range items {
+		if !visited[item] {
+			visited[item] = true
+			res = append(res, item)
+		}
+	}
+	return
+}
+
 func initializeSubcommands(ctx *Context) error {
 	cmd := ctx.target.(*Command)
-	for _, sub := range cmd.Subcommands {
-		if sub.internalFlags().initialized() {
-			continue
-		}
+	visited := map[*Command]bool{}
 
-		originalName := sub.Name
-		err := ctx.newChild(sub).initialize()
-		if err != nil {
-			return err
+	// As with flags and args, sub-commands could be added or removed
+	// by the initialization of their siblings
+	for {
+		commands := unvisited(cmd.Subcommands, visited)
+		if len(commands) == 0 {
+			return nil
 		}
 
-		// The name has changed, so hooks need to run again
-		// on the flag
-		if sub.Name != originalName {
-			ctx.newChild(sub).reinitialize()
+		for _, sub := range commands {
+			if sub.internalFlags().initialized() || !slices.Contains(cmd.Subcommands, sub) {
+				continue
+			}
+
+			originalName := sub.Name
+			err := ctx.newChild(sub).initialize()
+			if err != nil {
+				return err
+			}
+
+			// The name has changed, so hooks need to run again
+			// on the flag
+			if sub.Name != originalName {
+				ctx.newChild(sub).reinitialize()
+			}
 		}
 	}
-	return nil
 }
 
 func copyContextToParent(ctx *Context) error {
-- 
2.43.0


From 5f6ef31fb598b3f2863e5dcb8d4aa4c177c0621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:25 +0000
Subject: [PATCH 018/105] fix: let RemoveFlag take an index, as documented

---
 flag.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/flag.go b/flag.go
index ea4a266..dfaf8f6 100644
--- a/flag.go
+++ b/flag.go
@@ -594,6 +594,15 @@ func findFlagByName(items []*Flag, v any) (*Flag, int, bool) {
 		}
 		return nil, -1, false
 	}
+	if index, ok := v.(int); ok {
+		if index < 0 {
+			index = len(items) + index
+		}
+		if index >= 0 && index < len(items) {
+			return items[index], index, true
+		}
+		return nil, -1, false
+	}
 	name := strings.TrimLeft(v.(string), "-")
 	for index, sub := range items {
 		if sub.Name == name {
-- 
2.43.0


From 614cf87e2fc75648be5021f1c5e40e8db5d70318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:15 +0000
Subject: [PATCH 019/105] fix: let an environment, file or implied value
 replace the default

---
 context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/context.go b/context.go
index 71229f4..e59e091 100644
--- a/context.go
+++ b/context.go
@@ -921,6 +921,9 @@ func (c *Context) SetValue(arg any) error {
 		}
 
 		c.target.setInternalFlags(internalFlagSeenImplied, true)
+
+		// As with the first occurrence, this replaces the default value
+		c.option().reset()
 	}
 	return c.target.(option).Set(arg)
 }
-- 
2.43.0


From f3cd81af577fc671f1ff49bf11e3ea9f35be586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:34 +0000
Subject: [PATCH 020/105] fix: a pattern does not match a path which has fewer
 elements

---
 context.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/context.go b/context.go
index e59e091..081ea8a 100644
--- a/context.go
+++ b/context.go
@@ -1486,6 +1486,9 @@ func (cp contextPathPattern) Match(c ContextPath) bool {
 	if len(cp.parts) == 0 {
 		return true
 	}
+	if len(cp.parts) > len(c) {
+		return false
+	}
 	for i, j := len(cp.parts)-1, len(c)-1; i >= 0 && j >= 0; i, j = i-1, j-1 {
 		if !matchField(cp.parts[i], c[j]) {
 			return false
-- 
2.43.0


From ec71e2e6521fd5a1e9331900de8f929b823022af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:53 +0000
Subject: [PATCH 021/105] fix: let Implies name a flag which has a short name

---
 action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/action.go b/action.go
index dfb42d6..3af83bc 100644
--- a/action.go
+++ b/action.go
@@ -1141,7 +1141,7 @@ func Implies(name, value string) Action {
 		return nil
 	}
 	if name[0] != '-' {
-		name = "--" + name
+		name = optionName(name)
 	}
 	return ActionFunc(func(c *Context) error {
 		return c.Parent().HookBefore(name, ImplicitValue(func(_ *Context) (string, bool) {
-- 
2.43.0


From f3bd4aa5eea90229126b298dbffbace33902b163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:17 +0000
Subject: [PATCH 022/105] fix: EachOccurrence leaves the winning value and
 count of the option as they are

---
 arg.go    | 8 ++++++++
 flag.go   | 9 +++++++++
 option.go | 8 ++++++++
 3 files changed, 25 insertions(+)

diff --git a/arg.go b/arg.go
index 1bd63d0..13d5b2c 100644
--- a/arg.go
+++ b/arg.go
@@ -487,6 +487,14 @@ func (a *Arg) nextOccur() {
 	optionApplyValueConventions(a.Value, a.flags, a.count == 1)
 }
 
+// save captures the current value and count, obtaining a function that restores them
+func (a *Arg) save() func() {
+	value, count := a.Value, a.count
+	return func() {
+		a.Value, a.count = value, count
+	}
+}
+
 func (a *Arg) reset() {
 	optionReset(a.Value, a.internalFlags())
 }
diff --git a/flag.go b/flag.go
index dfaf8f6..bfc1ce4 100644
--- a/flag.go
+++ b/flag.go
@@ -168,6 +168,7 @@ type option interface {
 	SetRequired(bool)
 
 	reset()
+	save() func()
 	actualArgCounter() ArgCounter
 	transformFunc() TransformFunc
 	contextName() string
@@ -354,6 +355,14 @@ func (f *Flag) cloneZero() {
 	f.Value = valueCloneZero(f.Value)
 }
 
+// save captures the current value and count, obtaining a function that restores them
+func (f *Flag) save() func() {
+	value, count := f.Value, f.count
+	return func() {
+		f.Value, f.count = value, count
+	}
+}
+
 func (f *Flag) reset() {
 	optionReset(f.Value, f.internalFlags())
 }
diff --git a/option.go b/option.go
index e24036a..5c71b1b 100644
--- a/option.go
+++ b/option.go
@@ -563,6 +563,11 @@ func eachOccurrenceOpt(c1 *Context) error {
 
 		// Obtain either the zero value or Reset() the value
 		resetOnFirstOccur := !opt.internalFlags().merge()
+
+		// Other lookups obtain the winning value
+		winning := opt.save()
+		defer winning()
+
 		for i := range mini.numOccurs() {
 
 			// Create a copy of the value on each occurrence (unless merge semantics
@@ -586,9 +591,12 @@ func eachOccurrenceOpt(c1 *Context) error {
 
 			mini.val = c.option().value()
 
+			occurrence := opt.save()
+			winning()
 			if err := next.Execute(scope); err != nil {
 				return err
 			}
+			occurrence()
 		}
 		return nil
 	}))
-- 
2.43.0


From 6416700656692c1e1cfd4b308b5f3b0d49357c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:18 +0000
Subject: [PATCH 023/105] fix: a value given to a string arg replaces its
 default

---
 arg.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/arg.go b/arg.go
index 13d5b2c..b847179 100644
--- a/arg.go
+++ b/arg.go
@@ -484,7 +484,12 @@ func (a *Arg) cloneZero() {
 
 func (a *Arg) nextOccur() {
 	a.count++
-	optionApplyValueConventions(a.Value, a.flags, a.count == 1)
+	if a.count == 1 {
+		// Values of a string are merged with each other but not with the default
+		optionReset(a.Value, a.flags)
+		return
+	}
+	optionApplyValueConventions(a.Value, a.flags, false)
 }
 
 // save captures the current value and count, obtaining a function that restores them
-- 
2.43.0


From 95809bd614ffa837ae37d5e5caba46a4c3650988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:07 +0000
Subject: [PATCH 024/105] fix: -- is an argument like any other when flag
 parsing is skipped

---
 context.go |  6 +++---
 set.go     | 13 ++++++++++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/context.go b/context.go
index 081ea8a..3c590e6 100644
--- a/context.go
+++ b/context.go
@@ -191,11 +191,11 @@ func (c *Context) Execute(args []string) error {
 func (c *Context) parse(args []string) *robustParseResult {
 	root := c.Command()
 	set := root.buildSet(c)
-	if root.internalFlags().skipFlagParsing() && len(args) > 0 {
-		args = append([]string{args[0], "--"}, args[1:]...)
+	flags := root.internalFlags().toRaw() | RawSkipProgramName
+	if root.internalFlags().skipFlagParsing() {
+		flags |= rawSkipFlagParsing
 	}
 
-	flags := root.internalFlags().toRaw() | RawSkipProgramName
 	err := set.parse(args, flags)
 	return &robustParseResult{bindings: set.BindingMap, err: err}
 }
diff --git a/set.go b/set.go
index 3b36d46..ac764d4 100644
--- a/set.go
+++ b/set.go
@@ -57,6 +57,9 @@ const (
 	RawRTL = RawParseFlag(1 << iota)
 	RawDisallowFlagsAfterArgs
 	RawSkipProgramName
+
+	// rawSkipFlagParsing treats everything as arguments, including --
+	rawSkipFlagParsing
 )
 
 const (
@@ -152,6 +155,10 @@ func (f RawParseFlag) disallowFlagsAfterArgs() bool {
 	return f&RawDisallowFlagsAfterArgs == RawDisallowFlagsAfterArgs
 }
 
+func (f RawParseFlag) skipFlagParsing() bool {
+	return f&rawSkipFlagParsing == rawSkipFlagParsing
+}
+
 func (f RawParseFlag) skipProgramName() bool {
 	return f&RawSkipProgramName == RawSkipProgramName
 }
@@ -217,6 +224,10 @@ func RawParse(arguments []string, b Binding, flags RawParseFlag) (bindings Bindi
 		appendOutput = bindings.appendOutput
 	)
 
+	if flags.skipFlagParsing() {
+		state = argsOnly
+	}
+
 	// Skip program name
 	if flags.skipProgramName() {
 		args.pop()
@@ -229,7 +240,7 @@ Parsing:
 		// end of options?
 		if arg == "" || arg == "-" || arg[0] != '-' || state == argsOnly {
 			for {
-				if arg == "--" {
+				if arg == "--" && !flags.skipFlagParsing() {
 					state = argsOnly
 					if err = positionalOpts.Done(); err != nil {
 						return
-- 
2.43.0


From 06be0d5f17466d9d71004a9dfb67e35f59ea11e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:46 +0000
Subject: [PATCH 025/105] fix: the last arg that takes the remaining tokens
 also takes --

---
 set.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index ac764d4..9c81551 100644
--- a/set.go
+++ b/set.go
@@ -240,7 +240,7 @@ Parsing:
 		// end of options?
 		if arg == "" || arg == "-" || arg[0] != '-' || state == argsOnly {
 			for {
-				if arg == "--" && !flags.skipFlagParsing() {
+				if arg == "--" && !flags.skipFlagParsing() && !positionalOpts.takesRemaining() {
 					state = argsOnly
 					if err = positionalOpts.Done(); err != nil {
 						return
@@ -680,6 +680,13 @@ func (a *argBinding) current() ArgCounter {
 	return nil
 }
 
+// takesRemaining gets whether the current arg is the last one and takes all the remaining
+// tokens, in which case there is nothing that -- could separate it from
+func (a *argBinding) takesRemaining() bool {
+	c, ok := a.current().(*varArgsCounter)
+	return ok && !c.stopOnFlags && a.index == len(a.takers)-1
+}
+
 func (a *argBinding) Done() error {
 	if c := a.current(); c != nil {
 		return c.Done()
-- 
2.43.0


From 1a58fcd46025a3eb6f71435a7c09da396f2a009c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:38 +0000
Subject: [PATCH 026/105] fix: look up values and raw occurrences by alias, as
 documented

---
 command.go | 10 ++++++++++
 set.go     | 15 ++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/command.go b/command.go
index 41375e1..c7f5b43 100644
--- a/command.go
+++ b/command.go
@@ -343,6 +343,16 @@ func (c *Command) Use(action Action) *Command {
 	return c
 }
 
+// Raw obtains values for a flag or arg, which can be named by alias
+func (c *commandContext) Raw(name string) []string {
+	return c.set.Raw(c.resolveName(name))
+}
+
+// RawOccurrences obtains values for a flag or arg, which can be named by alias
+func (c *commandContext) RawOccurrences(name string) []string {
+	return c.set.RawOccurrences(c.resolveName(name))
+}
+
 func (c *Command) buildSet(ctx *Context) *set {
 	binding := NewBinding(c.Flags, c.Args, ctx.Parent())
 	set := newSet(binding)
diff --git a/set.go b/set.go
index 9c81551..66f6364 100644
--- a/set.go
+++ b/set.go
@@ -503,12 +503,25 @@ func (s *set) lookupValue(name string) (any, bool) {
 	if s.Binding == nil {
 		return nil, false
 	}
-	if _, _, g, ok := s.Binding.LookupOption(name); ok {
+	if _, _, g, ok := s.Binding.LookupOption(s.resolveName(name)); ok {
 		return g.(option).value(), true
 	}
 	return nil, false
 }
 
+// resolveName gets the name of the flag or arg given its name or alias and possibly with
+// decorators such as --flag or <arg>
+func (s *set) resolveName(name string) string {
+	bare := withoutDecorators(name)
+	if s.Binding == nil || bare == "" {
+		return name
+	}
+	if r, ok := s.Binding.ResolveAlias(bare); ok {
+		return r
+	}
+	return bare
+}
+
 func (m BindingMap) appendOutput(name string, args []string) {
 	if e, ok := m[name]; ok {
 		m[name] = append(e, args)
-- 
2.43.0


From 3cd0d258e7cf88b3e4fcb76dbd1f29ff0be075bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:42 +0000
Subject: [PATCH 027/105] fix: raw occurrences are those of the flag or arg
 named

---
 arg.go     | 15 +++++++++++++++
 context.go | 14 +++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/arg.go b/arg.go
index b847179..26430d8 100644
--- a/arg.go
+++ b/arg.go
@@ -512,7 +512,19 @@ func (o *optionContext) argHandling() ([]string, bool) {
 	return nil, false
 }
 
+// isOther gets whether the name is of an option other than the current one
+func (o *optionContext) isOther(name string) bool {
+	if f, ok := o.option.(*Flag); ok {
+		_, _, found := findFlagByName([]*Flag{f}, name)
+		return name != "" && !found
+	}
+	return name != "" && withoutDecorators(name) != o.option.name()
+}
+
 func (o *optionContext) Raw(name string) []string {
+	if o.isOther(name) {
+		return o.parentLookup.Raw(name)
+	}
 	if arg, ok := o.argHandling(); ok {
 		return arg
 	}
@@ -520,6 +532,9 @@ func (o *optionContext) Raw(name string) []string {
 }
 
 func (o *optionContext) RawOccurrences(name string) []string {
+	if o.isOther(name) {
+		return o.parentLookup.RawOccurrences(name)
+	}
 	if arg, ok := o.argHandling(); ok {
 		return arg
 	}
diff --git a/context.go b/context.go
index 3c590e6..1021461 100644
--- a/context.go
+++ b/context.go
@@ -703,7 +703,7 @@ func (c *Context) rawCore(name any, occurs func(internalContext, string) []strin
 	switch f := name.(type) {
 	case rune, string, nil, int, *Arg, *Flag:
 		d := occurs(c.internal, c.nameToString(f))
-		if f != "" && len(d) == 0 {
+		if f != "" && len(d) == 0 && !c.definesOption(c.nameToString(f)) {
 			return c.Parent().rawCore(c.nameToString(f), occurs)
 		}
 
@@ -714,6 +714,18 @@ func (c *Context) rawCore(name any, occurs func(internalContext, string) []strin
 	}
 }
 
+// definesOption gets whether the command itself has a flag or arg with the name
+func (c *Context) definesOption(name string) bool {
+	if name == "" || !c.IsCommand() {
+		return false
+	}
+	if _, _, ok := findFlagByName(c.LocalFlags(), name); ok {
+		return true
+	}
+	_, _, ok := findArgByName(c.LocalArgs(), name)
+	return ok
+}
+
 // BindingLookup returns the parse data for the context.  Note that this lookup
 // only applies to the current context and does not traverse inherited contexts.
 // Compare Raw and RawOccurrences which perform this for you.
-- 
2.43.0


From e73e73334231f307b699e9eaedbe91986ab2fa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:24 +0000
Subject: [PATCH 028/105] fix: initialize the flags and args that sub-commands
 add to their parent

---
 command.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/command.go b/command.go
index c7f5b43..cf48ed4 100644
--- a/command.go
+++ b/command.go
@@ -710,6 +710,11 @@ func initializeSubcommands(ctx *Context) error {
 				ctx.newChild(sub).reinitialize()
 			}
 		}
+
+		// These could also have added flags and args to this command
+		if err := initializeFlagsArgs(ctx); err != nil {
+			return err
+		}
 	}
 }
 
-- 
2.43.0


From fe7bbf20c01bb1cb0137f49481c8ef54193a7887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:49 +0000
Subject: [PATCH 029/105] fix: report an arg whose default name is already used

---
 command.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/command.go b/command.go
index cf48ed4..e3bd49d 100644
--- a/command.go
+++ b/command.go
@@ -735,7 +735,6 @@ func finalizeArgsAndFlags(c *Context) error {
 	for i, a := range c.LocalArgs() {
 		if a.Name == "" {
 			a.Name = "_" + strconv.Itoa(1+i)
-			continue
 		}
 		if names[a.Name] {
 			errs = append(errs, fmt.Errorf("duplicate name used: %q", a.Name))
-- 
2.43.0


From ca9adb1d457adec1922202320639f27b7f103ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:38 +0000
Subject: [PATCH 030/105] fix: require the dash in front of an expression
 operator

---
 extensions/expr/expr.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index 21021ed..6341215 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -779,8 +779,9 @@ func parseExpressions(exprOperands []*Expr, args []string) ([]Binding, cli.Bindi
 		arg := args[0]
 		args = args[1:]
 
-		expr, ok := exprs[arg[1:]]
-		if !ok {
+		name, isExpr := strings.CutPrefix(arg, "-")
+		expr, ok := exprs[name]
+		if !ok || !isExpr {
 			return nil, nil, unknownExpr(arg)
 		}
 
-- 
2.43.0


From 1ece159e5d974fddb6e3dd16c39aab71c0325365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:43 +0000
Subject: [PATCH 031/105] fix: don't take the operand of an expression operator
 as a flag

---
 extensions/expr/expr.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index 6341215..32a59c3 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -823,6 +823,11 @@ func (b *exprBinding) Expr() *Expr {
 	return b.expr
 }
 
+// ResolveAlias finds nothing because the operands of an expression are never named
+func (s *exprSet) ResolveAlias(string) (string, bool) {
+	return "", false
+}
+
 func (s *exprSet) lookupValue(name string) (any, bool) {
 	if _, _, g, ok := s.Binding.LookupOption(name); ok {
 		return g.(*cli.Arg).Value, true
-- 
2.43.0


From a718db1c947f00a736cb0c11f528573965423a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:55 +0000
Subject: [PATCH 032/105] fix: report the missing operand of an expression
 operator followed by another

---
 extensions/expr/expr.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index 32a59c3..ffc49c4 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -794,6 +794,15 @@ func parseExpressions(exprOperands []*Expr, args []string) ([]Binding, cli.Bindi
 		var pe *cli.ParseError
 		if err != nil {
 			pe = err.(*cli.ParseError)
+
+			// The next operator ends the operands, which have to be complete
+			if pe.Code == cli.UnknownOption {
+				operands := args[:len(args)-len(pe.Remaining)]
+				set := newBoundExpr(expr).exprSet
+				if _, err := cli.RawParse(operands, set, expr.internalFlags().toRaw()); err != nil {
+					return nil, nil, err
+				}
+			}
 			args = pe.Remaining
 
 			switch pe.Code {
-- 
2.43.0


From 20859479ea8db8c767a675438c329646708581fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:26 +0000
Subject: [PATCH 033/105] fix: apply Setup.Optional to each pipeline and ignore
 those that are not set

---
 action.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/action.go b/action.go
index 3af83bc..0d26207 100644
--- a/action.go
+++ b/action.go
@@ -445,22 +445,23 @@ func init() {
 // pipelines
 func (s Setup) Execute(ctx context.Context) error {
 	c := FromContext(ctx)
-	if s.Uses != nil {
-		if err := c.act(s.Uses, InitialTiming, s.Optional); err != nil {
-			return err
+	parts := []struct {
+		timing Timing
+		action any
+	}{
+		{InitialTiming, s.Uses},
+		{BeforeTiming, s.Before},
+		{ActionTiming, s.Action},
+		{AfterTiming, s.After},
+	}
+	for _, p := range parts {
+		if p.action == nil {
+			continue
 		}
-	}
-	if s.Before != nil {
-		if err := c.Before(ActionOf(s.Before)); err != nil {
+		if err := c.act(p.action, p.timing, s.Optional); err != nil {
 			return err
 		}
 	}
-	if err := c.Action(ActionOf(s.Action)); err != nil {
-		return err
-	}
-	if err := c.After(ActionOf(s.After)); err != nil {
-		return err
-	}
 	return nil
 }
 
-- 
2.43.0


From c8aec2fdb634a627222a8056d64149ec8a9c4a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:34 +0000
Subject: [PATCH 034/105] fix: let a prototype add data to a flag, arg or
 command that has none

---
 action.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/action.go b/action.go
index 0d26207..8dd3c53 100644
--- a/action.go
+++ b/action.go
@@ -7,7 +7,6 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
-	"maps"
 	"os"
 	"os/signal"
 	"regexp"
@@ -1520,7 +1519,9 @@ func (p *Prototype) copyToCommand(o *Command) {
 	}
 
 	o.Options |= p.Options
-	maps.Copy(o.Data, p.Data)
+	for k, v := range p.Data {
+		o.SetData(k, v)
+	}
 	if o.Completion == nil {
 		o.Completion = p.Completion
 	}
@@ -1551,7 +1552,9 @@ func (p *Prototype) copyToArg(c *Context) {
 
 	o.EnvVars = append(o.EnvVars, p.EnvVars...)
 	o.Options |= p.Options
-	maps.Copy(o.Data, p.Data)
+	for k, v := range p.Data {
+		o.SetData(k, v)
+	}
 }
 
 func (p *Prototype) copyToFlag(c *Context) {
@@ -1577,7 +1580,9 @@ func (p *Prototype) copyToFlag(c *Context) {
 	o.Aliases = append(o.Aliases, p.Aliases...)
 	o.EnvVars = append(o.EnvVars, p.EnvVars...)
 	o.Options |= p.Options
-	maps.Copy(o.Data, p.Data)
+	for k, v := range p.Data {
+		o.SetData(k, v)
+	}
 }
 
 func (p *Prototype) copyToValue(c *Context) error {
-- 
2.43.0


From f2c11d29d6e691e6515baaef4deb13c2cc37a9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:41 +0000
Subject: [PATCH 035/105] fix: don't let pipelines derived from the same
 pipeline overwrite each other

---
 action.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/action.go b/action.go
index 8dd3c53..e7087a5 100644
--- a/action.go
+++ b/action.go
@@ -1631,12 +1631,12 @@ func (af actionFunc) Execute(ctx context.Context) error {
 
 // Append appends actions to the pipeline
 func (p ActionPipeline) Append(x ...Action) ActionPipeline {
-	return append(p, x...)
+	return append(p[:len(p):len(p)], x...)
 }
 
 // Prepend prepends actions to the pipeline
 func (p ActionPipeline) Prepend(x ...Action) ActionPipeline {
-	return append(x, p...)
+	return append(x[:len(x):len(x)], p...)
 }
 
 // Execute the pipeline by calling each action successively
-- 
2.43.0


From 42597c63c91ac66080937640a99992b4f1334153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:17 +0000
Subject: [PATCH 036/105] fix: compute implied values after the other actions
 of the Before pipeline

---
 action.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/action.go b/action.go
index e7087a5..1141f66 100644
--- a/action.go
+++ b/action.go
@@ -1745,7 +1745,7 @@ func (w withTimingWrapper) Execute(ctx context.Context) error {
 			setInternalFlag(internalFlagImplicitTimingActive),
 			w.Action,
 			unsetInternalFlag(internalFlagImplicitTimingActive),
-		), BeforeTiming, false)
+		), ImplicitValueTiming, false)
 	}
 
 	return c.act(w.Action, w.t, false)
-- 
2.43.0


From b114f2cab60fd32e39bb7e385d66ab787354b82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:37 +0000
Subject: [PATCH 037/105] fix: fail with the text of the panic of a recovered
 flag or arg action

---
 action.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/action.go b/action.go
index 1141f66..cdfb6b8 100644
--- a/action.go
+++ b/action.go
@@ -506,7 +506,8 @@ func Recover(a Action) Action {
 	return actionFunc(func(c context.Context) error {
 		defer func() {
 			if rvr := recover(); rvr != nil {
-				FromContext(c).SetData(panicDataKey, &panicData{
+				// Use the command, because it is what reports the error
+				FromContext(c).Command().SetData(panicDataKey, &panicData{
 					recovered: fmt.Sprint(rvr),
 					stack:     formatStack(),
 				})
@@ -524,7 +525,7 @@ func failWithContextError(c *Context) error {
 	if r, ok := c.LookupData(panicDataKey); ok {
 		rvr := r.(*panicData)
 		fmt.Fprint(c.Stderr, rvr.stack)
-		return c.internalError(fmt.Errorf(rvr.recovered))
+		return c.internalError(errors.New(rvr.recovered))
 	}
 	return nil
 }
-- 
2.43.0


From decd09c737f53ee0bfd93da3bcfa2ac68a5d32d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:41 +0000
Subject: [PATCH 038/105] fix: break wrapped text between words rather than
 join them

---
 usage.go | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/usage.go b/usage.go
index cd66d46..3da0ec8 100644
--- a/usage.go
+++ b/usage.go
@@ -395,16 +395,6 @@ func (w *wrapper) Write(b []byte) (int, error) {
 
 		// lengths are based on printable rune widths
 		lineLen int
-
-		tryWrite = func(from *bytes.Buffer, length int) (res bool) {
-			res = lineLen+length < w.Limit
-			if res {
-				lineLen += length
-				from.WriteTo(w.Writer)
-				from.Reset()
-			}
-			return
-		}
 	)
 
 	for _, c := range s {
@@ -436,12 +426,11 @@ func (w *wrapper) Write(b []byte) (int, error) {
 				break
 			}
 
-			if tryWrite(&buf, bufLen) {
-				w.pending.WriteRune(c)
-				break
-			}
-
-			fallthrough
+			// The line is broken only ahead of the next word, which could
+			// turn out not to exist
+			buf.WriteTo(w.Writer)
+			lineLen += bufLen
+			w.pending.WriteRune(c)
 
 		case c == '\n':
 			lineLen = 0
@@ -451,10 +440,19 @@ func (w *wrapper) Write(b []byte) (int, error) {
 
 			w.pending.Reset()
 			w.pending.WriteString(w.Indent)
-			userSpace = c == '\n' // will be false on fallthrough from previous case
+			userSpace = true
 
 		default:
-			tryWrite(&w.pending, w.pending.Len())
+			if w.pending.Len() > 0 {
+				if lineLen > 0 && lineLen+w.pending.Len() >= w.Limit {
+					w.Writer.Write([]byte("\n"))
+					lineLen = 0
+					w.pending.Reset()
+					w.pending.WriteString(w.Indent)
+				}
+				lineLen += w.pending.Len()
+				w.pending.WriteTo(w.Writer)
+			}
 			buf.WriteRune(c)
 			userSpace = false
 		}
-- 
2.43.0


From 92bdd32b5dd2da4d0c824b0045346ede6c38a79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:37 +0000
Subject: [PATCH 039/105] fix: separate required flags in the synopsis of a
 command

---
 internal/synopsis/synopsis.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/synopsis/synopsis.go b/internal/synopsis/synopsis.go
index cf58829..6611b5b 100644
--- a/internal/synopsis/synopsis.go
+++ b/internal/synopsis/synopsis.go
@@ -241,6 +241,7 @@ func (c *Command) WriteTo(sb styleWriter) {
 
 	if flags := c.Flags[Other]; len(flags) > 0 {
 		for _, f := range flags {
+			sb.WriteString(" ")
 			f.primaryWriteTo(sb)
 		}
 	}
-- 
2.43.0


From 90a9823e6f31d84b27c088b3d2f09e9acc815636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:37 +0000
Subject: [PATCH 040/105] fix: don't show required args as optional in the
 synopsis of a right-to-left command

---
 internal/synopsis/synopsis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/synopsis/synopsis.go b/internal/synopsis/synopsis.go
index 6611b5b..9b1d87e 100644
--- a/internal/synopsis/synopsis.go
+++ b/internal/synopsis/synopsis.go
@@ -103,7 +103,7 @@ func NewCommand(name string, flags []*Flag, args []*Arg, rtl bool) *Command {
 	var optional []*Arg
 
 	if rtl {
-		var start int
+		start := len(args)
 		for i, p := range args {
 			if p.Optional {
 				start = i
-- 
2.43.0


From f0ee14d2f0c9687ec6411c7da3230a3396bd6f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:37 +0000
Subject: [PATCH 041/105] fix: don't list hidden sub-commands on the help
 screen

---
 templates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index 85bbbb6..ba6b285 100644
--- a/templates.go
+++ b/templates.go
@@ -291,7 +291,7 @@ func commandAdapter(val *Command) *commandData {
 		VisibleArgs:        visibleArgs(val.VisibleArgs()),
 		VisibleFlags:       visibleFlags(val.VisibleFlags()),
 		VisibleCommands:    visibleCommands(val.VisibleSubcommands()),
-		CommandsByCategory: visibleCategories(groupedByCategory(val.Subcommands)),
+		CommandsByCategory: visibleCategories(groupedByCategory(val.VisibleSubcommands())),
 		FlagsByCategory:    visibleFlagCategories(groupFlagsByCategory(val.Flags)),
 		Persistent: &persistentCommandData{
 			VisibleFlags: []*flagData{},
-- 
2.43.0


From 4abf66bbec370368a4bb4433efbf95af6a959d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:37 +0000
Subject: [PATCH 042/105] fix: keep the value given to SetColor when it is
 deferred

---
 usage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/usage.go b/usage.go
index 3da0ec8..1590f7c 100644
--- a/usage.go
+++ b/usage.go
@@ -164,7 +164,7 @@ func SetColor(enabled bool) Action {
 		// It is possible if this is called early, it will need to be
 		// deferred
 		if c.IsInitializing() && c.Stdout == nil {
-			return c.Before(SetColor(true))
+			return c.Before(SetColor(enabled))
 		}
 
 		c.SetColor(enabled)
-- 
2.43.0


From 953400f24245d749e88630c9a878814b84f84ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:37 +0000
Subject: [PATCH 043/105] fix: don't show hidden args in the synopsis of a
 command

---
 command.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/command.go b/command.go
index e3bd49d..97c2fe2 100644
--- a/command.go
+++ b/command.go
@@ -509,11 +509,12 @@ func findSolitaryMatch(c *Context) []CompletionItem {
 
 func (c *Command) newSynopsis() *synopsis.Command {
 	flags := make([]*synopsis.Flag, len(c.Flags))
-	args := make([]*synopsis.Arg, len(c.Args))
+	visible := c.VisibleArgs()
+	args := make([]*synopsis.Arg, len(visible))
 	for i, f := range c.Flags {
 		flags[i] = f.synopsis()
 	}
-	for i, a := range c.Args {
+	for i, a := range visible {
 		args[i] = a.newSynopsis()
 	}
 
-- 
2.43.0


From 589e85a4c80ed641d5fba6686eeedfd8f89d6df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:56 +0000
Subject: [PATCH 044/105] fix: show help for the sub-commands that are named,
 not for values of flags

---
 usage.go | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/usage.go b/usage.go
index 1590f7c..83cfeb8 100644
--- a/usage.go
+++ b/usage.go
@@ -250,17 +250,12 @@ func findCommandToDisplayHelpFor(c *Context, command []string) (*Context, Contex
 
 			// When the switch is interspersed with the name
 			// of commands, we try to infer what the user meant
-			// by removing flag names and treating full thing as
-			// a path
-			command = slices.DeleteFunc(c.Parent().Raw(""), func(t string) bool {
-				return strings.HasPrefix(t, "-")
-			})
-
-			// Use either the parent path or this inferred command,
-			// whicever is longer and therefore more specific.
-			if len(c.Parent().Path()) >= len(command) {
+			// from the sub-commands that are named
+			inferred := inferSubcommands(c.Parent())
+			if len(inferred) == 0 {
 				return c.Parent(), c.Parent().Path(), nil
 			}
+			command = append(c.Parent().Path(), inferred...)
 
 		} else {
 			list, _ := c.Value("command").([]string)
@@ -281,6 +276,32 @@ func findCommandToDisplayHelpFor(c *Context, command []string) (*Context, Contex
 	return nil, nil, commandMissing(command[len(command)-1])
 }
 
+// inferSubcommands gets the names of the sub-commands that the command
+// was invoked with
+func inferSubcommands(c *Context) []string {
+	cmd := c.Command()
+	if len(cmd.Subcommands) == 0 {
+		return nil
+	}
+	var res []string
+	for _, name := range c.RawOccurrences("command") {
+		if len(cmd.Subcommands) == 0 {
+			// What remains are arguments to the sub-command
+			break
+		}
+		if strings.HasPrefix(name, "-") {
+			continue
+		}
+		res = append(res, name)
+		sub, ok := cmd.Command(name)
+		if !ok {
+			break
+		}
+		cmd = sub
+	}
+	return res
+}
+
 // PrintVersion displays the version string.  The VersionTemplate provides the Go template
 func PrintVersion() Action {
 	return Pipeline(&Prototype{
-- 
2.43.0


From 8500feb5b597bf27a6327d44eb287e726037c6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:32 +0000
Subject: [PATCH 045/105] fix: show mirrored flags on the help screen, and
 synopses that reflect the flag as it is

---
 flag.go                       | 19 ++++++++-----------
 internal/synopsis/synopsis.go |  3 ++-
 option.go                     | 15 +++++++++++++--
 templates.go                  |  6 +++---
 4 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/flag.go b/flag.go
index bfc1ce4..97b9e25 100644
--- a/flag.go
+++ b/flag.go
@@ -219,22 +219,19 @@ func (f *Flag) Synopsis() string {
 	return sprintSynopsis(f.synopsis())
 }
 
-func (f *Flag) cacheSynopsis(syn *synopsis.Flag) *synopsis.Flag {
-	f.SetData(synopsisKey, syn)
-	return syn
-}
-
 func (f *Flag) synopsis() *synopsis.Flag {
-	if f.Data != nil {
-		if a, ok := f.Data[synopsisKey]; ok {
-			return a.(*synopsis.Flag)
-		}
+	if a, ok := f.Data[synopsisKey]; ok {
+		return a.(*synopsis.Flag)
 	}
-	return f.cacheSynopsis(f.newSynopsis())
+	return f.newSynopsis()
 }
 
 func (f *Flag) newSynopsis() *synopsis.Flag {
-	return synopsis.NewFlag(f.Name, f.Aliases, f.HelpText, f.UsageText, f.value(), getGroup(f))
+	syn := synopsis.NewFlag(f.Name, f.Aliases, f.HelpText, f.UsageText, f.value(), getGroup(f))
+	if f.internalFlags().mirrored() {
+		syn.WithNo()
+	}
+	return syn
 }
 
 // SetData sets the specified metadata on the flag.  When v is nil, the corresponding
diff --git a/internal/synopsis/synopsis.go b/internal/synopsis/synopsis.go
index 9b1d87e..5fbc696 100644
--- a/internal/synopsis/synopsis.go
+++ b/internal/synopsis/synopsis.go
@@ -1,6 +1,7 @@
 package synopsis
 
 import (
+	"cmp"
 	"fmt"
 	"io"
 	"sort"
@@ -276,7 +277,7 @@ func (f *Flag) primaryWriteTo(sb styleWriter) {
 
 func (f *Flag) WithNo() {
 	_ = f.withLongAndShort(
-		[]string{"[no-]" + f.Long},
+		[]string{"[no-]" + cmp.Or(f.Long, f.Short)},
 		f.Shorts,
 	)
 }
diff --git a/option.go b/option.go
index 5c71b1b..f94bde5 100644
--- a/option.go
+++ b/option.go
@@ -222,6 +222,7 @@ const (
 	internalFlagVisibleExplicitlyRequested
 	internalFlagTriggerRequested
 	internalFlagActionExecuted // true when the action of the option has been run
+	internalFlagMirrored       // true for Flag with a mirror flag that starts with no-
 )
 
 var (
@@ -385,6 +386,10 @@ func (f internalFlags) actionExecuted() bool {
 	return f&internalFlagActionExecuted == internalFlagActionExecuted
 }
 
+func (f internalFlags) mirrored() bool {
+	return f&internalFlagMirrored == internalFlagMirrored
+}
+
 func (f internalFlags) destinationImplicitlyCreated() bool {
 	return f&internalFlagDestinationImplicitlyCreated == internalFlagDestinationImplicitlyCreated
 }
@@ -530,13 +535,19 @@ func unsetInternalFlag(f internalFlags) ActionFunc {
 func noOption(c *Context) error {
 	f := c.Flag()
 
-	syn := f.synopsis()
-	syn.WithNo()
+	f.setInternalFlags(internalFlagMirrored, true)
+
+	var aliases []string
+	if long := strings.TrimPrefix(f.LongName(), "--"); long != f.Name {
+		// The help screen shows the mirror of the long name
+		aliases = []string{"no-" + long}
+	}
 
 	return Do(c, AddFlag(&Flag{
 		HelpText:  f.HelpText,
 		UsageText: f.UsageText,
 		Name:      "no-" + f.Name,
+		Aliases:   aliases,
 		Category:  f.Category,
 		Value:     Bool(),
 		Options:   Hidden,
diff --git a/templates.go b/templates.go
index ba6b285..0bf1c34 100644
--- a/templates.go
+++ b/templates.go
@@ -307,13 +307,13 @@ func renderHelp(us *synopsis.Usage) string {
 }
 
 func flagAdapter(val *Flag) *flagData {
-	syn := val.newSynopsis()
+	usage := synopsis.ParseUsage(val.HelpText)
 	return &flagData{
 		Name:        val.Name,
-		HelpText:    renderHelp(syn.Value.Usage),
+		HelpText:    renderHelp(usage),
 		ManualText:  val.ManualText,
 		Description: val.Description,
-		Synopsis:    wrapSynopsis(syn),
+		Synopsis:    wrapSynopsis(val.synopsis()),
 		Data:        val.Data,
 	}
 }
-- 
2.43.0


From e2d7b1e45512970deeb47f4355c3f99b2fa6d4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:12 +0000
Subject: [PATCH 046/105] fix: sort the help screen of a command that is shown
 without running it

---
 option.go | 65 ++++++++++++++++++++++++++++++++++++++-----------------
 usage.go  |  5 +++++
 2 files changed, 50 insertions(+), 20 deletions(-)

diff --git a/option.go b/option.go
index f94bde5..1282161 100644
--- a/option.go
+++ b/option.go
@@ -223,6 +223,9 @@ const (
 	internalFlagTriggerRequested
 	internalFlagActionExecuted // true when the action of the option has been run
 	internalFlagMirrored       // true for Flag with a mirror flag that starts with no-
+	internalFlagSortedFlags
+	internalFlagSortedCommands
+	internalFlagSortedExprs
 )
 
 var (
@@ -246,9 +249,9 @@ var (
 		EachOccurrence:         ActionFunc(eachOccurrenceOpt),
 		AllowFileReference:     actionFunc(allowFileReferenceOpt),
 		FileReference:          actionFunc(fileReferenceOpt),
-		SortedFlags:            Before(ActionFunc(sortedFlagsOpt)),
-		SortedCommands:         Before(ActionFunc(sortedCommandsOpt)),
-		SortedExprs:            Before(ActionFunc(sortedExprsOpt)),
+		SortedFlags:            sortedOption(internalFlagSortedFlags),
+		SortedCommands:         sortedOption(internalFlagSortedCommands),
+		SortedExprs:            sortedOption(internalFlagSortedExprs),
 		ImpliedAction:          setInternalFlag(internalFlagImpliedAction),
 		Trigger:                setInternalFlag(internalFlagTriggerRequested),
 	}
@@ -390,6 +393,18 @@ func (f internalFlags) mirrored() bool {
 	return f&internalFlagMirrored == internalFlagMirrored
 }
 
+func (f internalFlags) sortedFlags() bool {
+	return f&internalFlagSortedFlags == internalFlagSortedFlags
+}
+
+func (f internalFlags) sortedCommands() bool {
+	return f&internalFlagSortedCommands == internalFlagSortedCommands
+}
+
+func (f internalFlags) sortedExprs() bool {
+	return f&internalFlagSortedExprs == internalFlagSortedExprs
+}
+
 func (f internalFlags) destinationImplicitlyCreated() bool {
 	return f&internalFlagDestinationImplicitlyCreated == internalFlagDestinationImplicitlyCreated
 }
@@ -621,26 +636,36 @@ func fileReferenceOpt(c context.Context) error {
 	return Do(c, Transform(TransformFileReference(FromContext(c).actualFS())))
 }
 
-func sortedFlagsOpt(c *Context) error {
-	cmd := c.Command()
-	slices.SortFunc(cmd.Flags, flagsByNameOrder)
-	return nil
-}
-
-func sortedCommandsOpt(c *Context) error {
-	cmd := c.Command()
-	slices.SortFunc(cmd.Subcommands, commandsByNameOrder)
-	return nil
+// sortedOption sorts ahead of the action and also ahead of displaying help, which
+// could be for a command that does not run
+func sortedOption(f internalFlags) ActionFunc {
+	return func(c *Context) error {
+		t := c.target
+		if f != internalFlagSortedExprs {
+			t = c.Command()
+		}
+		t.setInternalFlags(f, true)
+		return c.Before(ActionFunc(func(*Context) error {
+			sortForHelp(t)
+			return nil
+		}))
+	}
 }
 
-func sortedExprsOpt(c *Context) error {
-	exp, ok := c.target.description().(interface{ SortUsage() })
-	if !ok {
-		return nil
+func sortForHelp(t target) {
+	if cmd, ok := t.(*Command); ok {
+		if cmd.internalFlags().sortedFlags() {
+			slices.SortFunc(cmd.Flags, flagsByNameOrder)
+		}
+		if cmd.internalFlags().sortedCommands() {
+			slices.SortFunc(cmd.Subcommands, commandsByNameOrder)
+		}
+	}
+	if t.internalFlags().sortedExprs() {
+		if exp, ok := t.description().(interface{ SortUsage() }); ok {
+			exp.SortUsage()
+		}
 	}
-
-	exp.SortUsage()
-	return nil
 }
 
 var (
diff --git a/usage.go b/usage.go
index 83cfeb8..79450fd 100644
--- a/usage.go
+++ b/usage.go
@@ -217,6 +217,11 @@ func DisplayHelpScreen(command ...string) Action {
 			usageColor = c.Stdout.ColorCapable()
 
 			current := ctxt.Command()
+			sortForHelp(current)
+			for _, a := range current.Args {
+				sortForHelp(a)
+			}
+
 			persistentFlags := filterInVisibleFlags(ctxt.PersistentFlags())
 
 			if len(path) > 0 {
-- 
2.43.0


From 3b5367f5c2a4ebd06469285346b54e189337ef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:18 +0000
Subject: [PATCH 047/105] fix: show the names of long flags with two dashes in
 a category without documentation

---
 templates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index 0bf1c34..72fb921 100644
--- a/templates.go
+++ b/templates.go
@@ -223,7 +223,7 @@ func (c *commandData) withLineage(lineage string, persistent []*Flag) *commandDa
 func (e flagDataList) Names() []string {
 	res := make([]string, 0, len(e))
 	for _, x := range e {
-		res = append(res, "-"+x.Name)
+		res = append(res, optionName(x.Name))
 	}
 	return res
 }
-- 
2.43.0


From 2652029c48581808eefc70fba30d7f395248d040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:53 +0000
Subject: [PATCH 048/105] fix: don't show help for flags and args named in
 place of commands, and name the command that is unknown

---
 usage.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/usage.go b/usage.go
index 79450fd..de177f7 100644
--- a/usage.go
+++ b/usage.go
@@ -275,10 +275,15 @@ func findCommandToDisplayHelpFor(c *Context, command []string) (*Context, Contex
 		command2[0] = "*"
 		command[0] = c.Root().Name()
 	}
-	if cmd, ok := c.Root().FindTarget(ContextPath(command2)); ok {
-		return cmd, command, nil
+	cmd := c.Root()
+	for i := range command2 {
+		var ok bool
+		cmd, ok = c.Root().FindTarget(ContextPath(command2[:i+1]))
+		if !ok || !cmd.IsCommand() {
+			return nil, nil, commandMissing(command[i])
+		}
 	}
-	return nil, nil, commandMissing(command[len(command)-1])
+	return cmd, command, nil
 }
 
 // inferSubcommands gets the names of the sub-commands that the command
-- 
2.43.0


From 5f0e7bd3e76ef19be7bc6f5df29303c9bf10c3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:01 +0000
Subject: [PATCH 049/105] fix: show the synopsis of required args and of those
 with OptionalArg as they are

---
 arg.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/arg.go b/arg.go
index 26430d8..f71cb75 100644
--- a/arg.go
+++ b/arg.go
@@ -339,7 +339,11 @@ func (a *Arg) Synopsis() string {
 
 func (a *Arg) newSynopsis() *synopsis.Arg {
 	defaultUsage := fmt.Sprintf("<%s>", a.Name)
-	return synopsis.NewArg(cmp.Or(a.UsageText, defaultUsage), a.NArg)
+	syn := synopsis.NewArg(cmp.Or(a.UsageText, defaultUsage), a.NArg)
+	if a.internalFlags().required() {
+		syn.Optional = false
+	}
+	return syn
 }
 
 func (a *Arg) name() string {
@@ -618,6 +622,10 @@ func (*varArgsCounter) Usage() (optional, multi bool) {
 	return true, true
 }
 
+func (o *matchesArgsCounter) Usage() (optional, multi bool) {
+	return true, o.max > 1
+}
+
 func (o *matchesArgsCounter) Take(arg string, possibleFlag bool) error {
 	if o.fn(arg) && o.count < o.max {
 		o.count++
-- 
2.43.0


From ac0dfbc6e92f426940c9ea9042e50b89abe8b8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:15 +0000
Subject: [PATCH 050/105] fix: suggest completions for the command in effect,
 by exact flag names, without hidden sub-commands or a panic on invalid values

---
 command.go    | 43 +++++++++++++++++++++++++++++++------------
 completion.go | 15 ++++++++++++++-
 2 files changed, 45 insertions(+), 13 deletions(-)

diff --git a/command.go b/command.go
index 97c2fe2..c18b862 100644
--- a/command.go
+++ b/command.go
@@ -145,7 +145,7 @@ func ExecuteSubcommand(interceptErr func(*Context, error) (*Command, error)) Act
 		Value:      List(),
 		NArg:       -1,
 		Options:    DisableSplitting,
-		Completion: CompletionFunc(completeSubCommand),
+		Completion: subcommandCompletion{},
 	}, At(ActionTiming, ActionFunc(func(c *Context) error {
 		invoke := c.List("")
 		return subcommandCore(c, invoke, interceptErr)
@@ -375,7 +375,11 @@ func ensureSubcommands(ctx context.Context) error {
 	return nil
 }
 
-func completeSubCommand(c *Context) []CompletionItem {
+// subcommandCompletion completes the name of a sub-command and what follows it
+type subcommandCompletion struct{}
+
+func (subcommandCompletion) Complete(ctx context.Context) []CompletionItem {
+	c := FromContext(ctx)
 	cc := c.CompletionRequest()
 	invoke := c.List("")
 	detect := func(s string) bool {
@@ -384,14 +388,15 @@ func completeSubCommand(c *Context) []CompletionItem {
 
 	if len(invoke) == 0 {
 		cmd := c.Command()
-		res := make([]CompletionItem, 0, len(cmd.Subcommands))
+		subcommands := cmd.VisibleSubcommands()
+		res := make([]CompletionItem, 0, len(subcommands))
 
-		for _, s := range cmd.Subcommands {
+		for _, s := range subcommands {
 			if detect(s.Name) {
 				res = append(res, CompletionItem{Value: s.Name, HelpText: s.HelpText})
 			}
 		}
-		for _, s := range cmd.Subcommands {
+		for _, s := range subcommands {
 			for _, alias := range s.Aliases {
 				if detect(alias) {
 					res = append(res, CompletionItem{Value: alias, HelpText: s.HelpText})
@@ -422,6 +427,13 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 	cmd := c.Target().(*Command)
 	var items []CompletionItem
 
+	// What follows the name of a sub-command is up to the sub-command
+	for _, a := range cmd.Args {
+		if _, ok := a.Completion.(subcommandCompletion); ok && len(cc.Bindings[a.Name]) > 0 {
+			return a.Completion.Complete(c.newChild(a))
+		}
+	}
+
 	if strings.HasPrefix(cc.Incomplete, "-") {
 		// If a search only finds one match, then complete the flag
 		items = findSolitaryMatch(c)
@@ -430,7 +442,7 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 		}
 
 		for _, f := range cmd.VisibleFlags() {
-			for _, n := range f.synopsis().Names {
+			for _, n := range f.completionNames() {
 				if strings.HasPrefix(n, cc.Incomplete) {
 					items = append(items, CompletionItem{Value: n, HelpText: f.HelpText})
 				}
@@ -440,10 +452,13 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 	}
 
 	if cc.Err != nil {
-		name := cc.Err.(*ParseError).Name
+		var name string
+		if err, ok := cc.Err.(*ParseError); ok && err.Code == ExpectedArgument {
+			name = err.Name
+		}
 
 		if strings.HasPrefix(name, "-") {
-			flag, ok := cmd.Flag(name)
+			flag, ok := c.LookupFlag(name)
 			if ok {
 				return actualCompletion(flag.completion()).Complete(c)
 			}
@@ -456,7 +471,7 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 		if arg == nil {
 			return nil
 		}
-		return actualCompletion(arg.completion()).Complete(c)
+		return actualCompletion(arg.completion()).Complete(c.newChild(arg))
 	}
 
 	// Request completion of the last argument that was seen
@@ -477,15 +492,19 @@ func defaultCommandCompletion(c *Context) []CompletionItem {
 func findSolitaryMatch(c *Context) []CompletionItem {
 	cc := c.CompletionRequest()
 	cmd := c.Target().(*Command)
-	flagName, _, hasArg := strings.Cut(cc.Incomplete, "=")
+	flagName, _, _ := strings.Cut(cc.Incomplete, "=")
 	var match *Flag
 	var matchName string
 
 	for _, f := range cmd.VisibleFlags() {
-		for _, n := range f.synopsis().Names {
-			if n == cc.Incomplete || (hasArg && strings.HasPrefix(n, flagName)) {
+		for _, n := range f.completionNames() {
+			if n == flagName || (len(n) == 2 && strings.HasPrefix(cc.Incomplete, n) && !f.internalFlags().flagOnly()) {
 				return actualCompletion(f.completion()).Complete(c.newChild(f))
 			}
+		}
+	}
+	for _, f := range cmd.VisibleFlags() {
+		for _, n := range f.completionNames() {
 			if strings.HasPrefix(n, cc.Incomplete) {
 				if match != nil && match != f {
 					return nil
diff --git a/completion.go b/completion.go
index 4e1ed3b..cc23f92 100644
--- a/completion.go
+++ b/completion.go
@@ -195,7 +195,7 @@ func CompletionValues(values ...string) Completion {
 				}
 				return res
 			}
-			for _, n := range o.synopsis().Names {
+			for _, n := range o.completionNames() {
 				var prefix string
 				if len(n) == 2 { // as in -s short names
 					prefix = n // Force run-in style, which is most compatible
@@ -254,6 +254,19 @@ func (c *Context) shellCompletes() map[string]ShellComplete {
 	return l.(map[string]ShellComplete)
 }
 
+// completionNames gets the names which are suggested for a flag, which are up to one
+// short and one long name
+func (f *Flag) completionNames() []string {
+	var res []string
+	if name := f.ShortName(); name != "" {
+		res = append(res, name)
+	}
+	if name := f.LongName(); len(name) > len("--f") {
+		res = append(res, name)
+	}
+	return res
+}
+
 func (f CompletionFunc) Complete(c context.Context) []CompletionItem {
 	if f == nil {
 		return nil
-- 
2.43.0


From 78a318520d42ebe6a95e9517aae98ed6e10e474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:39 +0000
Subject: [PATCH 051/105] fix: don't panic when the index of the word to
 complete is negative

---
 completion_zsh.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/completion_zsh.go b/completion_zsh.go
index 9615206..da5d091 100644
--- a/completion_zsh.go
+++ b/completion_zsh.go
@@ -57,10 +57,10 @@ func (*zshComplete) GetCompletionRequest() (args []string, incomplete string) {
 	cwords, _ := Split(os.Getenv("COMP_WORDS"))
 	cword, _ := strconv.Atoi(os.Getenv("COMP_CWORD"))
 
-	if cword <= len(cwords) {
+	if cword >= 0 && cword <= len(cwords) {
 		args = cwords[0:cword]
 	}
-	if cword < len(cwords) {
+	if cword >= 0 && cword < len(cwords) {
 		incomplete = cwords[cword]
 	}
 	return
-- 
2.43.0


From 8037d9446cab2810ed7b5377e871c8f4a2bfd2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:44 +0000
Subject: [PATCH 052/105] fix: write completions for zsh as lines that are not
 empty, with a space after unless prevented

---
 completion_zsh.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/completion_zsh.go b/completion_zsh.go
index da5d091..0a0ca1f 100644
--- a/completion_zsh.go
+++ b/completion_zsh.go
@@ -2,9 +2,11 @@ package cli
 
 import (
 	"bytes"
+	"cmp"
 	"fmt"
 	"os"
 	"strconv"
+	"strings"
 )
 
 type zshComplete struct {
@@ -24,7 +26,7 @@ const zshSourceScript = `
     response=("${(@f)$(env COMP_WORDS="${words[*]}" COMP_CWORD=$((CURRENT-1)) \
 {{ .JoeCompletionVar }}=zsh {{ .App.Name }})}")
     for type key descr no_space in ${response}; do
-        if [[ -n "$no_space" ]]; then
+        if [[ "$no_space" == "1" ]]; then
             space="-S ''"
         fi
         if [[ "$type" == "plain" ]]; then
@@ -79,10 +81,10 @@ func (z *zshComplete) FormatCompletions(items []CompletionItem) string {
 }
 
 func (z *zshComplete) formatCompletion(item CompletionItem) string {
-	itemDesc := item.HelpText
-	if itemDesc == "" {
-		itemDesc = "_"
-	}
+	// Each item is four lines, none of which can be empty because
+	// the script skips empty lines
+	itemValue := cmp.Or(item.Value, "_")
+	itemDesc := cmp.Or(strings.Join(strings.Fields(item.HelpText), " "), "_")
 	itemType := "plain"
 	switch item.Type {
 	case CompletionTypeFile:
@@ -90,12 +92,12 @@ func (z *zshComplete) formatCompletion(item CompletionItem) string {
 	case CompletionTypeDirectory:
 		itemType = "dir"
 	}
-	spaceAfter := "1"
+	noSpace := "_"
 	if item.PreventSpaceAfter {
-		spaceAfter = ""
+		noSpace = "1"
 	}
 
-	return fmt.Sprint(itemType, "\n", item.Value, "\n", itemDesc, "\n", spaceAfter, "\n")
+	return fmt.Sprint(itemType, "\n", itemValue, "\n", itemDesc, "\n", noSpace, "\n")
 }
 
 func (*zshComplete) GetSourceTemplate() *Template {
-- 
2.43.0


From 68576ac3aba01ccd2a17e2247b69f3ee1b2b2f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:10 +0000
Subject: [PATCH 053/105] fix: complete in spite of required flags and args

---
 command.go    | 3 ++-
 completion.go | 6 ++++++
 context.go    | 4 ++--
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/command.go b/command.go
index c18b862..74f2b77 100644
--- a/command.go
+++ b/command.go
@@ -381,7 +381,8 @@ type subcommandCompletion struct{}
 func (subcommandCompletion) Complete(ctx context.Context) []CompletionItem {
 	c := FromContext(ctx)
 	cc := c.CompletionRequest()
-	invoke := c.List("")
+	// The list could be missing if some other value is invalid
+	invoke := c.RawOccurrences("")
 	detect := func(s string) bool {
 		return strings.HasPrefix(s, cc.Incomplete)
 	}
diff --git a/completion.go b/completion.go
index cc23f92..36b3455 100644
--- a/completion.go
+++ b/completion.go
@@ -245,6 +245,12 @@ func (c *Context) robustParsingMode() bool {
 	return c.flagSetOrAncestor((internalFlags).robustParseModeEnabled)
 }
 
+// completionRequested is true when completions will be displayed rather than
+// running the app
+func (c *Context) completionRequested() bool {
+	return c.robustParsingMode() && c.App() != nil && newCompletionData(c).ShellComplete != nil
+}
+
 func (c *Context) shellCompletes() map[string]ShellComplete {
 	l, ok := c.LookupData(shellCompletesKey)
 	if !ok {
diff --git a/context.go b/context.go
index 1021461..2d3bb9f 100644
--- a/context.go
+++ b/context.go
@@ -173,7 +173,7 @@ func (c *Context) Execute(args []string) error {
 		}
 	}
 	res := c.parse(args)
-	if res.err != nil {
+	if res.err != nil && !c.completionRequested() {
 		return res.err
 	}
 
@@ -2224,7 +2224,7 @@ func setupOptionFromEnv(c context.Context) error {
 
 func checkForRequiredOption(c *Context) error {
 	if c.option().internalFlags().required() {
-		if !c.Seen("") {
+		if !c.Seen("") && !c.completionRequested() {
 			return expectedRequiredOption(c.Name())
 		}
 	}
-- 
2.43.0


From d2d1f33d321dc74400536377585c41f3951f59e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:34 +0000
Subject: [PATCH 054/105] fix: keep the values of an occurrence apart when
 they're loaded from files

---
 action.go | 24 ++++++++++++++++++++++--
 arg.go    |  3 +++
 flag.go   |  3 +++
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/action.go b/action.go
index cdfb6b8..311437b 100644
--- a/action.go
+++ b/action.go
@@ -121,6 +121,11 @@ type ValidatorFunc func(s []string) error
 // the behavior of parsing. The function can return string, []byte, or io.Reader.
 type TransformFunc func(rawOccurrences []string) (any, error)
 
+type occurrenceData struct {
+	io.Reader
+	values []io.Reader
+}
+
 type hookable interface {
 	hook(at Timing, handler Action) error
 	executeInitializeHooks(context.Context) error
@@ -1272,7 +1277,7 @@ func TransformOptionalFileReference(f fs.FS) TransformFunc {
 				readers[i] = strings.NewReader(s)
 			}
 		}
-		return io.MultiReader(readers...), nil
+		return newOccurrenceData(readers), nil
 	}
 }
 
@@ -1287,8 +1292,23 @@ func TransformFileReference(f fs.FS) TransformFunc {
 			}
 			readers[i] = f
 		}
-		return io.MultiReader(readers...), nil
+		return newOccurrenceData(readers), nil
+	}
+}
+
+// newOccurrenceData gets the data for an occurrence that has possibly several values, each
+// of which sets the value
+func newOccurrenceData(readers []io.Reader) io.Reader {
+	return &occurrenceData{io.MultiReader(readers...), readers}
+}
+
+func (o *occurrenceData) setData(dest any) error {
+	for _, r := range o.values {
+		if err := SetData(dest, r); err != nil {
+			return err
+		}
 	}
+	return nil
 }
 
 // FromEnv loads the flag or arg value from the given environment variable(s).
diff --git a/arg.go b/arg.go
index f71cb75..15ea82b 100644
--- a/arg.go
+++ b/arg.go
@@ -306,6 +306,9 @@ func (a *Arg) SetOccurrence(values ...string) error {
 // SetOccurrenceData will update the value of the arg
 func (a *Arg) SetOccurrenceData(v any) error {
 	a.nextOccur()
+	if data, ok := v.(*occurrenceData); ok {
+		return data.setData(a.Value)
+	}
 	return SetData(a.Value, v)
 }
 
diff --git a/flag.go b/flag.go
index 97b9e25..edfd16f 100644
--- a/flag.go
+++ b/flag.go
@@ -496,6 +496,9 @@ func (f *Flag) SetOccurrence(values ...string) error {
 // SetOccurrenceData will update the value of the flag
 func (f *Flag) SetOccurrenceData(v any) error {
 	f.nextOccur()
+	if data, ok := v.(*occurrenceData); ok {
+		return data.setData(f.Value)
+	}
 	return SetData(f.Value, v)
 }
 
-- 
2.43.0


From 418ad62e70a9d2042ee82690adab4ae9824bf410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:55 +0000
Subject: [PATCH 055/105] fix: transform the value of a name-value pair given
 as two values, and don't unescape it twice

---
 action.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/action.go b/action.go
index 311437b..e5bb213 100644
--- a/action.go
+++ b/action.go
@@ -121,6 +121,12 @@ type ValidatorFunc func(s []string) error
 // the behavior of parsing. The function can return string, []byte, or io.Reader.
 type TransformFunc func(rawOccurrences []string) (any, error)
 
+// Escape what would otherwise be unescaped or be a delimiter in names and values
+var (
+	pairNameEscaper  = strings.NewReplacer("=", `\=`, `\,`, `\\,`)
+	pairValueEscaper = strings.NewReplacer(`\=`, `\\=`, `\,`, `\\,`)
+)
+
 type occurrenceData struct {
 	io.Reader
 	values []io.Reader
@@ -1223,8 +1229,14 @@ func Transform(fn TransformFunc) Action {
 func ValueTransform(valueFn TransformFunc) Action {
 	return Transform(func(raw []string) (any, error) {
 		name, value, hasValue := splitValuePair(raw[1])
-		if hasValue {
-			values := append([]string{name, value}, raw[2:]...)
+		rest := raw[2:]
+		separate := !hasValue && len(rest) > 0
+		if separate {
+			// As with NameValue, where the value can be on its own
+			value, rest = rest[0], rest[1:]
+		}
+		if hasValue || separate {
+			values := append([]string{name, value}, rest...)
 			f, err := valueFn(values)
 			if err != nil {
 				return nil, err
@@ -1234,10 +1246,16 @@ func ValueTransform(valueFn TransformFunc) Action {
 			if err != nil {
 				return nil, err
 			}
-			return name + "=" + txt, nil
+			if separate {
+				return newOccurrenceData([]io.Reader{
+					strings.NewReader(raw[1]),
+					strings.NewReader(txt),
+				}), nil
+			}
+			return pairNameEscaper.Replace(name) + "=" + pairValueEscaper.Replace(txt), nil
 		}
 
-		return name, nil
+		return raw[1], nil
 	})
 }
 
-- 
2.43.0


From 18dbac56051016516a9baa9df6f38ec58d6cdc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:14 +0000
Subject: [PATCH 056/105] fix: open and stat - when stdin or stdout aren't
 files

---
 file.go | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/file.go b/file.go
index 6689e26..c2ac6b2 100644
--- a/file.go
+++ b/file.go
@@ -98,6 +98,9 @@ type stdFile struct {
 	out io.Writer
 }
 
+// stdFileInfo describes stdin or stdout when they aren't files
+type stdFileInfo struct{}
+
 type defaultFS struct {
 	FS
 	std *stdFile
@@ -423,14 +426,14 @@ func (d defaultFS) OpenFile(name string, flag int, perm os.FileMode) (fs.File, e
 	if name == "-" && d.std != nil {
 		switch flag & readWriteMask {
 		case os.O_RDONLY:
-			return d.std.in.(*os.File), nil
+			return d.std.file(d.std.in), nil
 		case os.O_RDWR:
 			if (flag & (os.O_APPEND | os.O_CREATE)) > 0 {
-				return d.std.out.(*os.File), nil
+				return d.std.file(d.std.out), nil
 			}
 			return nil, errors.New("open not supported: O_RDWR must be specified with O_APPEND or O_CREATE")
 		case os.O_WRONLY:
-			return d.std.out.(*os.File), nil
+			return d.std.file(d.std.out), nil
 		}
 	}
 	return d.FS.OpenFile(name, flag, perm)
@@ -581,11 +584,19 @@ func (f fsExtensionWrapper) OpenFile(name string, flag int, perm fs.FileMode) (f
 	}
 }
 
+// file gets the reader or writer as a file if it is one
+func (s *stdFile) file(rw any) fs.File {
+	if f, ok := rw.(*os.File); ok {
+		return f
+	}
+	return s
+}
+
 func (s *stdFile) Stat() (fs.FileInfo, error) {
-	if f, ok := s.in.(*os.File); ok {
+	if f, ok := s.in.(interface{ Stat() (fs.FileInfo, error) }); ok {
 		return f.Stat()
 	}
-	return nil, nil
+	return stdFileInfo{}, nil
 }
 
 func (s *stdFile) Read(d []byte) (int, error) {
@@ -606,11 +617,17 @@ func (s *stdFile) Close() error {
 }
 
 func (s *stdFile) ReadAt(p []byte, off int64) (n int, err error) {
-	return s.in.(io.ReaderAt).ReadAt(p, off)
+	if r, ok := s.in.(io.ReaderAt); ok {
+		return r.ReadAt(p, off)
+	}
+	return 0, &fs.PathError{Op: "read", Path: "-", Err: errors.ErrUnsupported}
 }
 
 func (s *stdFile) Seek(offset int64, whence int) (int64, error) {
-	return s.in.(io.Seeker).Seek(offset, whence)
+	if r, ok := s.in.(io.Seeker); ok {
+		return r.Seek(offset, whence)
+	}
+	return 0, &fs.PathError{Op: "seek", Path: "-", Err: errors.ErrUnsupported}
 }
 
 func (s *stdFile) WriteString(str string) (n int, err error) {
@@ -624,6 +641,13 @@ func (s *stdFile) Write(p []byte) (n int, err error) {
 	return s.out.Write(p)
 }
 
+func (stdFileInfo) Name() string       { return "-" }
+func (stdFileInfo) Size() int64        { return 0 }
+func (stdFileInfo) Mode() fs.FileMode  { return fs.ModeNamedPipe | 0666 }
+func (stdFileInfo) ModTime() time.Time { return time.Time{} }
+func (stdFileInfo) IsDir() bool        { return false }
+func (stdFileInfo) Sys() any           { return nil }
+
 func (c *contextFile) Read(p []byte) (n int, err error) {
 	if err = c.ctx.Err(); err != nil {
 		return
-- 
2.43.0


From 63a62850dbf92d84466c293a5c0a0b9cf88e974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:59 +0000
Subject: [PATCH 057/105] fix: stat files of a file system which doesn't
 provide Stat, rather than have all exist

---
 file.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/file.go b/file.go
index c2ac6b2..b53642b 100644
--- a/file.go
+++ b/file.go
@@ -552,14 +552,8 @@ func (f fsExtensionWrapper) MkdirAll(name string, mode fs.FileMode) error {
 }
 
 func (f fsExtensionWrapper) Stat(name string) (fs.FileInfo, error) {
-	if s, ok := f.FS.(fs.StatFS); ok {
-		return s.Stat(name)
-	}
-	return nil, &fs.PathError{
-		Op:   "stat",
-		Path: name,
-		Err:  errors.New("not supported"),
-	}
+	// Opens the file if the file system doesn't provide Stat
+	return fs.Stat(f.FS, name)
 }
 
 func (f fsExtensionWrapper) OpenContext(c context.Context, name string) (fs.File, error) {
-- 
2.43.0


From 36553f17d78d67743337908e35c3e7c74211f62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:56 +0000
Subject: [PATCH 058/105] fix: keep all files of a file set which is given
 several, as documented for Reset

---
 value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index fe99791..21f1c51 100644
--- a/value.go
+++ b/value.go
@@ -787,12 +787,12 @@ func optionReset(p any, flags internalFlags) {
 func optionApplyValueConventions(p any, flags internalFlags, firstOccur bool) {
 	resetOnFirstOccur := !flags.merge()
 	if !firstOccur {
-		// string will reset on every occurrence unless Merge is turned on
+		// string and name-value will reset on every occurrence unless Merge is turned on
 		if resetOnFirstOccur {
 			switch p := p.(type) {
 			case *string:
 				*p = ""
-			case valueResetOrMerge:
+			case *NameValue:
 				p.Reset()
 			}
 		}
-- 
2.43.0


From b7dc20226877456ca1c0aa0a293384e415c0ed66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:02 +0000
Subject: [PATCH 059/105] fix: give both name and value of an arg's name-value
 pair

---
 arg.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arg.go b/arg.go
index 15ea82b..2eda1dc 100644
--- a/arg.go
+++ b/arg.go
@@ -377,7 +377,9 @@ func (a *Arg) value() any {
 		a.setInternalFlags(internalFlagDestinationImplicitlyCreated, true)
 	}
 
-	if _, ok := a.Value.(*string); ok {
+	// The values of an arg can make up a string or name-value
+	switch a.Value.(type) {
+	case *string, *NameValue:
 		a.setInternalFlags(internalFlagMerge, true)
 	}
 	return a.Value
-- 
2.43.0


From cdb736acbf8dc70e5d9c07e496f0331de7540572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:02 +0000
Subject: [PATCH 060/105] fix: a file that is not given doesn't have to exist

---
 option.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/option.go b/option.go
index 1282161..34834b0 100644
--- a/option.go
+++ b/option.go
@@ -504,7 +504,8 @@ func mustExistOption(c *Context) error {
 		_, err := wrapFS(c.actualFS()).Stat(f)
 		return err
 	case fileExists:
-		if f.Exists() {
+		// A blank value is ignored because the user must handle it
+		if f.Exists() || fmt.Sprint(f) == "" {
 			return nil
 		}
 	case fileStat:
-- 
2.43.0


From 1a7d231491d854cb0f0e2606296e6b3cf95a8c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:21 +0000
Subject: [PATCH 061/105] fix: bind.For net.IP, any and custom types, and
 bind.Interface for flags without a value

---
 extensions/bind/binder.go        | 10 +++++-----
 internal/support/bind_support.go |  5 +++++
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/extensions/bind/binder.go b/extensions/bind/binder.go
index 84fbf26..3d75ab3 100644
--- a/extensions/bind/binder.go
+++ b/extensions/bind/binder.go
@@ -57,7 +57,6 @@ package bind
 
 import (
 	"context"
-	"fmt"
 	"math/big"
 	"net"
 	"net/url"
@@ -455,6 +454,9 @@ func Interface(nameopt ...any) Binder[any] {
 // For provides the binder of the specified type
 func For[T any](nameopt ...any) Binder[T] {
 	var t T
+	if _, ok := any(&t).(*any); ok {
+		return any(Interface(nameopt...)).(Binder[T])
+	}
 	return func() any {
 		switch any(t).(type) {
 		case bool:
@@ -503,7 +505,7 @@ func For[T any](nameopt ...any) Binder[T] {
 			return URL(nameopt...)
 		case *regexp.Regexp:
 			return Regexp(nameopt...)
-		case *net.IP:
+		case net.IP:
 			return IP(nameopt...)
 		case *big.Int:
 			return BigInt(nameopt...)
@@ -511,10 +513,8 @@ func For[T any](nameopt ...any) Binder[T] {
 			return BigFloat(nameopt...)
 		case []byte:
 			return Bytes(nameopt...)
-		case any:
-			return Interface(nameopt...)
 		default:
-			panic(fmt.Sprintf("unexpected target type %T", t))
+			return Value[T](nameopt...)
 		}
 	}().(Binder[T])
 }
diff --git a/internal/support/bind_support.go b/internal/support/bind_support.go
index 1d00a90..436e29f 100644
--- a/internal/support/bind_support.go
+++ b/internal/support/bind_support.go
@@ -10,6 +10,11 @@ var (
 )
 
 func BindSupportedValue(v any) any {
+	// Any value will do
+	if _, ok := v.(*any); ok {
+		return nil
+	}
+
 	// Bind functions will either use *V or V depending upon what
 	// supports the built-in convention values or implements Value.
 	// Any built-in primitive will work as is.  However, if v is actually
-- 
2.43.0


From f8519ab6a59218c4444330642e7932b23f8fc957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:16 +0000
Subject: [PATCH 062/105] fix: setting a string value replaces it instead of
 adding to it

---
 context.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/context.go b/context.go
index 2d3bb9f..33e1221 100644
--- a/context.go
+++ b/context.go
@@ -936,6 +936,11 @@ func (c *Context) SetValue(arg any) error {
 
 		// As with the first occurrence, this replaces the default value
 		c.option().reset()
+	} else if p, ok := c.option().value().(*string); ok {
+		// As with an occurrence, this replaces the text instead of adding to it
+		if !c.option().internalFlags().mergeExplicitlyRequested() {
+			*p = ""
+		}
 	}
 	return c.target.(option).Set(arg)
 }
-- 
2.43.0


From a9a519bf3cd82f1c2d28d33f00100444ed8aab4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:27 +0000
Subject: [PATCH 063/105] fix: bind the value given when Bind is used in
 Action, and document to use it in Uses

---
 action.go               | 17 ++++++++++++-----
 extensions/bind/func.go |  6 +++---
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/action.go b/action.go
index e5bb213..df836f2 100644
--- a/action.go
+++ b/action.go
@@ -695,7 +695,7 @@ func BindContext[T, V any](value func(context.Context) *T, bind func(*T, V) erro
 //	&cli.Flag{
 //	    Name: "recursive",
 //	    HelpText: "Whether files is recursively searched",
-//	    Action: cli.BindIndirect("files", (*cli.FileSet).SetRecursive),
+//	    Uses: cli.BindIndirect("files", (*cli.FileSet).SetRecursive),
 //	}
 //
 // The name parameter specifies the name of the flag or arg that is affected.  The
@@ -710,15 +710,13 @@ func BindIndirect[T, V any](name any, bind func(*T, V) error, valopt ...V) Actio
 func bindThunk[T, V any](thunk func(context.Context) *T, bind func(*T, V) error, valopt ...V) Action {
 	switch len(valopt) {
 	case 0:
-		proto := &Prototype{Value: support.BindSupportedValue(new(V))}
-		return Pipeline(proto, bindTiming(func(c context.Context) error {
+		return Pipeline(bindValue(support.BindSupportedValue(new(V))), bindTiming(func(c context.Context) error {
 			return bind(thunk(c), c.Value("").(V))
 		}))
 
 	case 1:
-		proto := &Prototype{Value: new(bool)}
 		val := valopt[0]
-		return Pipeline(proto, bindTiming(func(c context.Context) error {
+		return Pipeline(bindValue(new(bool)), bindTiming(func(c context.Context) error {
 			return bind(thunk(c), val)
 		}))
 	default:
@@ -726,6 +724,15 @@ func bindThunk[T, V any](thunk func(context.Context) *T, bind func(*T, V) error,
 	}
 }
 
+// bindValue implies the value, which is only possible in the Uses pipeline. Later on,
+// it would replace the value which has been parsed
+func bindValue(value any) Action {
+	return Setup{
+		Optional: true,
+		Uses:     &Prototype{Value: value},
+	}
+}
+
 func bindTiming(a actionFunc) Action {
 	return At(ActionTiming, a)
 }
diff --git a/extensions/bind/func.go b/extensions/bind/func.go
index 7083d8d..5db70c1 100644
--- a/extensions/bind/func.go
+++ b/extensions/bind/func.go
@@ -167,7 +167,7 @@ func Evaluator3[T, U, V any](eval func(T, U, V) expr.Evaluator, t Binder[T], u B
 //	&cli.Flag{
 //	    Name: "recursive",
 //	    HelpText: "Whether files is recursively searched",
-//	    Action: bind.Indirect("files", (*cli.FileSet).SetRecursive),
+//	    Uses: bind.Indirect("files", (*cli.FileSet).SetRecursive),
 //	}
 //
 // The name parameter specifies the name of the flag or arg that is affected.  The
@@ -188,12 +188,12 @@ func Indirect[T, V any](name any, call func(T, V) error, valopt ...V) cli.Action
 //	&cli.Flag{
 //	    Name: "tls1.2",
 //	    HelpText: "Use TLS 1.2 connections",
-//	    Action: bind.Redirect("proto", "tls1.2"),
+//	    Uses: bind.Redirect("proto", "tls1.2"),
 //	}
 //	&cli.Flag{
 //	    Name: "tls1.3",
 //	    HelpText: "Use TLS 1.3 connections",
-//	    Action: bind.Redirect("proto", "tls1.3"),
+//	    Uses: bind.Redirect("proto", "tls1.3"),
 //	}
 //
 // The name parameter specifies the name of the flag or arg that is affected.  The
-- 
2.43.0


From 757c387cdb3f32bc9ca85a476b18dc1025dc0537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:25 +0000
Subject: [PATCH 064/105] fix: bind the args of an expression operator instead
 of those of the command

---
 context.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/context.go b/context.go
index 33e1221..47d7e5c 100644
--- a/context.go
+++ b/context.go
@@ -437,6 +437,17 @@ func (c *Context) ContextOf(target any) *Context {
 		return c
 	}
 	if !c.IsCommand() {
+		// A value such as Expr can have its own args
+		if value, ok := c.target.(*valueTarget); ok && value.hasLocalArgs() {
+			switch target.(type) {
+			case int:
+				return c.tryOptionContext(c.LookupArg(target))
+			case string:
+				if a, _, found := findArgByName(value.LocalArgs(), target); found {
+					return c.newChild(a)
+				}
+			}
+		}
 		return c.Parent().ContextOf(target)
 	}
 	switch name := target.(type) {
@@ -2068,6 +2079,11 @@ func (v *valueTarget) LookupData(name string) (any, bool) {
 	return nil, false
 }
 
+func (v *valueTarget) hasLocalArgs() bool {
+	_, ok := v.v.(haveLocalArgs)
+	return ok
+}
+
 func (v *valueTarget) LocalArgs() []*Arg {
 	if a, ok := v.v.(haveLocalArgs); ok {
 		return a.LocalArgs()
-- 
2.43.0


From 4ef01d6e09ff1d450460b07195199a03e96bda0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:10 +0000
Subject: [PATCH 065/105] fix: an invalid value is a parse error which names
 the flag or arg, as documented for InvalidArgument

---
 error.go | 10 ++++++++++
 set.go   |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 258d257..46e0d8a 100644
--- a/error.go
+++ b/error.go
@@ -251,6 +251,16 @@ func expectedRequiredOption(name string) *ParseError {
 	}
 }
 
+// invalidArgument is the error for a value which can't be set. If the value decides
+// on the exit code by itself, its error is kept
+func invalidArgument(name string, value string, err error) error {
+	var coder ExitCoder
+	if errors.As(err, &coder) {
+		return err
+	}
+	return argTakerError(name, value, err, nil)
+}
+
 func flagUnexpectedArgument(name string, value string, remaining []string) *ParseError {
 	return &ParseError{
 		Code:      InvalidArgument,
diff --git a/set.go b/set.go
index 66f6364..08faf22 100644
--- a/set.go
+++ b/set.go
@@ -606,7 +606,7 @@ func rawApplyToOption(v [][]string, transform TransformFunc, value BindingState)
 	for _, values := range v {
 		err := value.SetOccurrence(values[1:]...)
 		if err != nil {
-			return err
+			return invalidArgument(values[0], strings.Join(values[1:], " "), err)
 		}
 	}
 	return nil
-- 
2.43.0


From 4116c5fbccd0c2ff9ed174cc399b9908a1258772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:21 +0000
Subject: [PATCH 066/105] fix: a percent sign in the value of an Enum garbles
 its error

---
 action.go | 7 ++++---
 error.go  | 6 ++++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/action.go b/action.go
index df836f2..18ac254 100644
--- a/action.go
+++ b/action.go
@@ -825,12 +825,13 @@ func Enum(options ...string) Action {
 			Uses: ValidatorFunc(func(raw []string) error {
 				for _, occur := range raw {
 					if _, ok := oset[occur]; !ok {
-						expected := listOfValues(options)
+						unrecognized := fmt.Sprintf("unrecognized value %q", occur)
+						expected := fmt.Sprintf(", expected %s", listOfValues(options))
 						return &ParseError{
 							Code: InvalidArgument,
 							Err: errorTemplate{
-								fallback: fmt.Sprintf("unrecognized value %q, expected %s", occur, expected),
-								format:   fmt.Sprintf("unrecognized value %q for %%[1]s, expected %s", occur, expected),
+								fallback: unrecognized + expected,
+								format:   escapeFormat(unrecognized) + " for %[1]s" + escapeFormat(expected),
 							},
 						}
 					}
diff --git a/error.go b/error.go
index 46e0d8a..03d4918 100644
--- a/error.go
+++ b/error.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"strconv"
+	"strings"
 )
 
 // ErrorCode provides common error codes in the CLI framework.
@@ -227,6 +228,11 @@ func (i *InternalError) Error() string {
 		i.Err)
 }
 
+// escapeFormat escapes text for use in the format of a template
+func escapeFormat(s string) string {
+	return strings.ReplaceAll(s, "%", "%%")
+}
+
 func commandMissing(name string) error {
 	return &ParseError{
 		Code: CommandNotFound,
-- 
2.43.0


From b58ddf48f1ee618ebc56183b757872ff23b9e0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:14 +0000
Subject: [PATCH 067/105] fix: --help and the like work without the args and
 flags that are required

---
 command.go | 16 ++++++++++++++++
 context.go | 21 ++++++++++++++++++---
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/command.go b/command.go
index 74f2b77..5af046c 100644
--- a/command.go
+++ b/command.go
@@ -107,10 +107,26 @@ type rootCommandData struct {
 }
 
 type robustParseResult struct {
+	binding  Binding
 	bindings BindingMap
 	err      error
 }
 
+// exitsBeforeArgs gets whether the only error is about args which are missing, which
+// are not needed when a flag like --help is used
+func (r *robustParseResult) exitsBeforeArgs() bool {
+	if p, ok := r.err.(*ParseError); !ok || p.Code != ExpectedArgument || len(p.Remaining) > 0 {
+		return false
+	}
+	for name := range r.bindings {
+		_, _, opt, _ := r.binding.LookupOption(name)
+		if f, ok := opt.(*Flag); ok && f.internalFlags().exits() {
+			return true
+		}
+	}
+	return false
+}
+
 type commandCategory struct {
 	Category string
 	Commands []*Command
diff --git a/context.go b/context.go
index 47d7e5c..da36e86 100644
--- a/context.go
+++ b/context.go
@@ -174,7 +174,12 @@ func (c *Context) Execute(args []string) error {
 	}
 	res := c.parse(args)
 	if res.err != nil && !c.completionRequested() {
-		return res.err
+		if !res.exitsBeforeArgs() {
+			return res.err
+		}
+		if err := res.bindings.ApplyTo(res.binding); err != nil {
+			return err
+		}
 	}
 
 	if err := c.executeBefore(); err != nil {
@@ -197,7 +202,7 @@ func (c *Context) parse(args []string) *robustParseResult {
 	}
 
 	err := set.parse(args, flags)
-	return &robustParseResult{bindings: set.BindingMap, err: err}
+	return &robustParseResult{binding: set, bindings: set.BindingMap, err: err}
 }
 
 func (c *Context) Deadline() (deadline time.Time, ok bool) {
@@ -2245,13 +2250,23 @@ func setupOptionFromEnv(c context.Context) error {
 
 func checkForRequiredOption(c *Context) error {
 	if c.option().internalFlags().required() {
-		if !c.Seen("") && !c.completionRequested() {
+		if !c.Seen("") && !c.completionRequested() && !c.exitsBeforeAction() {
 			return expectedRequiredOption(c.Name())
 		}
 	}
 	return nil
 }
 
+// exitsBeforeAction gets whether a flag like --help was used on the command
+func (c *Context) exitsBeforeAction() bool {
+	for _, f := range c.Parent().Flags() {
+		if f.internalFlags().exits() && f.Seen() {
+			return true
+		}
+	}
+	return false
+}
+
 func checkForSupportedFlagType(c *Context) error {
 	if err := checkSupportedFlagType(c.option().value()); err != nil {
 		return c.internalError(err)
-- 
2.43.0


From 3cb14096990942193ef93b9df0a298bc70c57de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:51 +0000
Subject: [PATCH 068/105] fix: the exit status of an error that is wrapped

---
 app.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/app.go b/app.go
index dbc8596..412259a 100644
--- a/app.go
+++ b/app.go
@@ -3,6 +3,7 @@ package cli
 import (
 	"bytes"
 	"context"
+	"errors"
 	"fmt"
 	"io"
 	"io/fs"
@@ -302,7 +303,8 @@ func exit(c context.Context, err error) {
 	if handler == nil {
 		handler = defaultExitHandler
 	}
-	if coder, ok := err.(ExitCoder); ok {
+	var coder ExitCoder
+	if errors.As(err, &coder) {
 		code = coder.ExitCode()
 	}
 	handler(FromContext(c), err.Error(), code)
-- 
2.43.0


From cea12d4e172a3cc0aafadcc80b7f136c32cfea03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:11 +0000
Subject: [PATCH 069/105] fix: the name of a short flag used after arguments

---
 set.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index 08faf22..ff2bbd8 100644
--- a/set.go
+++ b/set.go
@@ -3,6 +3,7 @@ package cli
 import (
 	"slices"
 	"strings"
+	"unicode/utf8"
 )
 
 // BindingMap contains the occurrences of the values passed to each flag and arg.
@@ -332,7 +333,8 @@ Parsing:
 		// Short option processing
 		arg = arg[1:] // strip -
 		if disallowFlagsAfterArgs && anyArgs {
-			err = flagAfterArgError(arg)
+			short, _ := utf8.DecodeRuneInString(arg)
+			err = flagAfterArgError(short)
 			return
 		}
 
-- 
2.43.0


From 35a5f6d9962259996cd9692f12094cc15fafc98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:15 +0000
Subject: [PATCH 070/105] fix: the template func Color panics for the color
 Default

---
 extensions/color/color_templates.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/color/color_templates.go b/extensions/color/color_templates.go
index a72c33c..1b188c6 100644
--- a/extensions/color/color_templates.go
+++ b/extensions/color/color_templates.go
@@ -136,8 +136,8 @@ func (t *templateContext) resetColor() func() string {
 }
 
 func (t *templateContext) setColor(color string, a ...any) (string, error) {
-	if _, ok := colorNames[color]; ok {
-		return t.funcs[color].(sprinter)(a...)
+	if f, ok := colorNames[color]; ok {
+		return t.sprintForegroundColor(f)(a...)
 	}
 	return "", fmt.Errorf("not valid color: %q", color)
 }
-- 
2.43.0


From ba6f0e6b66450e32a3431bdbc53bc7ec091ff507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:15 +0000
Subject: [PATCH 071/105] fix: emoji follow when color is switched on or off

---
 extensions/color/color_templates.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/extensions/color/color_templates.go b/extensions/color/color_templates.go
index 1b188c6..4ed3272 100644
--- a/extensions/color/color_templates.go
+++ b/extensions/color/color_templates.go
@@ -10,8 +10,6 @@ import (
 type templateContext struct {
 	c     *cli.Context
 	funcs map[string]any
-
-	colorEnabledCache *bool
 }
 
 type sprinter = func(...any) (string, error)
@@ -211,10 +209,5 @@ func (t *templateContext) emoji(name string) (string, error) {
 }
 
 func (t *templateContext) colorEnabled() bool {
-	if t.colorEnabledCache == nil {
-		res := t.c.NewBuffer()
-		enabled := res.ColorCapable()
-		t.colorEnabledCache = &enabled
-	}
-	return *t.colorEnabledCache
+	return t.c.NewBuffer().ColorCapable()
 }
-- 
2.43.0


From 85e3d1c5ddbaa62b90d6e16c8a40785e15f69849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:22 +0000
Subject: [PATCH 072/105] fix: AutodetectColor disables color on terminals

---
 usage.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/usage.go b/usage.go
index de177f7..d518c01 100644
--- a/usage.go
+++ b/usage.go
@@ -71,6 +71,7 @@ type Style = ansiterm.Style
 
 type stringHelper struct {
 	*ansiterm.Writer
+	out     io.Writer
 	enabled bool
 }
 
@@ -154,6 +155,7 @@ func (c *Context) NewBuffer() *buffer {
 func NewWriter(w io.Writer) Writer {
 	return &stringHelper{
 		Writer:  ansiterm.NewWriter(w),
+		out:     w,
 		enabled: colorEnabled(w),
 	}
 }
@@ -566,7 +568,7 @@ func (w *stringHelper) WriteString(s string) (int, error) {
 }
 
 func (w *stringHelper) ResetColorCapable() {
-	w.SetColorCapable(colorEnabled(w.Writer))
+	w.SetColorCapable(colorEnabled(w.out))
 }
 
 func (w *stringHelper) ColorCapable() bool {
-- 
2.43.0


From b099b88d858ac5a49641f43644241531e2aaa086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:20 +0000
Subject: [PATCH 073/105] fix: the footers of a Porcelain table come after its
 last row, and its cells require a row

---
 extensions/table/table.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/extensions/table/table.go b/extensions/table/table.go
index 86b7133..0429c54 100644
--- a/extensions/table/table.go
+++ b/extensions/table/table.go
@@ -225,7 +225,8 @@ func newTableContext(f ...*Format) *tableContext {
 }
 
 type porcelainContext struct {
-	cells []string
+	footers []string
+	cells   []string
 }
 
 // wrapperRenderContext delegates to the appropriate internal
@@ -387,17 +388,26 @@ func (porcelainContext) Headers(titles ...string) string {
 	return strings.Join(titles, "\t") + "\n"
 }
 
-func (porcelainContext) Footers(titles ...string) string {
-	return strings.Join(titles, "\t") + "\n"
+// Footers come after the rows, whose last one is pending
+func (p *porcelainContext) Footers(titles ...string) string {
+	p.footers = append(p.footers, titles...)
+	return ""
 }
 
 func (p *porcelainContext) Cell(value any) (string, error) {
+	if p.cells == nil {
+		return "", errCellCalledWrongTime
+	}
 	p.cells = append(p.cells, fmt.Sprint(value))
 	return "", nil
 }
 
 func (p *porcelainContext) EndTable() string {
-	return p.Row()
+	res := p.Row()
+	if len(p.footers) > 0 {
+		res += strings.Join(p.footers, "\t") + "\n"
+	}
+	return res
 }
 
 func (c *wrapperRenderContext) Table(f ...any) (string, error) {
-- 
2.43.0


From 9673b08b5ea14e0ec0a81386dfc12735943354bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:04 +0000
Subject: [PATCH 074/105] fix: the help screen with tables is empty, because it
 uses a template which doesn't exist

---
 extensions/table/table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensions/table/table.go b/extensions/table/table.go
index 0429c54..e657ddb 100644
--- a/extensions/table/table.go
+++ b/extensions/table/table.go
@@ -132,7 +132,7 @@ const (
 const (
 	flagTemplate = `
 {{- Row -}}
-{{- Execute "FlagSynopsis" .Synopsis | ExtraSpaceBeforeFlag | Cell -}}
+{{- .Synopsis | print | ExtraSpaceBeforeFlag | Cell -}}
 {{- Cell .HelpText -}}
 `
 
-- 
2.43.0


From 094e5fa6ce7867453f8611242fbabb42e071d428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:05 +0000
Subject: [PATCH 075/105] fix: tables with styled text are torn apart by
 wrapping which isn't needed

---
 extensions/table/table.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/extensions/table/table.go b/extensions/table/table.go
index e657ddb..5138aff 100644
--- a/extensions/table/table.go
+++ b/extensions/table/table.go
@@ -116,6 +116,7 @@ type tableContext struct {
 	footers []string
 	cells   [][]string
 	buf     *bytes.Buffer
+	width   int
 
 	cornerSeparators [9]string // left->right, top->bottom
 	centerSeparator  string
@@ -297,6 +298,11 @@ func (c *tableContext) Cell(value any) (string, error) {
 
 func (c *tableContext) EndTable() string {
 	if len(c.headers) > 0 || len(c.cells) > 0 || len(c.footers) > 0 {
+		// Wrapping doesn't know about styles, so it has to be left out
+		// of text which does not need it
+		if c.fits() {
+			c.table.SetAutoWrapText(false)
+		}
 		c.table.SetHeader(c.headers)
 		c.table.SetFooter(c.footers)
 		c.table.AppendBulk(c.cells)
@@ -332,8 +338,23 @@ func (c *tableContext) EndTable() string {
 	return strings.Join(lines, nl)
 }
 
+// fits gets whether all text is within the width of a column
+func (c *tableContext) fits() bool {
+	for _, row := range append([][]string{c.headers, c.footers}, c.cells...) {
+		for _, cell := range row {
+			for _, line := range strings.Split(cell, "\n") {
+				if tablewriter.DisplayWidth(line) > c.width {
+					return false
+				}
+			}
+		}
+	}
+	return true
+}
+
 func (f *Format) apply(tc *tableContext) {
 	t := tc.table
+	tc.width = f.ColWidth
 	t.SetAutoWrapText(f.AutoWrapText)
 	t.SetAutoFormatHeaders(f.AutoFormatHeaders)
 	t.SetHeaderAlignment(int(f.HeaderAlignment))
-- 
2.43.0


From 35f5eef540468ac0cac2aab8958e9a5740464281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:02 +0000
Subject: [PATCH 076/105] fix: color is disabled in templates when stdout is a
 custom Writer

---
 usage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/usage.go b/usage.go
index d518c01..d523708 100644
--- a/usage.go
+++ b/usage.go
@@ -607,8 +607,8 @@ func (s *synopsisWrapper[T]) String() string {
 }
 
 func colorEnabled(w io.Writer) bool {
-	if s, ok := w.(*stringHelper); ok {
-		return s.enabled
+	if s, ok := w.(Writer); ok {
+		return s.ColorCapable()
 	}
 
 	f, ok := w.(*os.File)
-- 
2.43.0


From e983f4626bf3c7e114b012c52a278020daa3b931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:12 +0000
Subject: [PATCH 077/105] fix: actions nested in the Action of a flag with
 EachOccurrence don't run

---
 option.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/option.go b/option.go
index 34834b0..91ddba8 100644
--- a/option.go
+++ b/option.go
@@ -586,7 +586,7 @@ func eachOccurrenceOpt(c1 *Context) error {
 			optionContext: c.internal.(*optionContext),
 		}
 
-		scope := c.copy(opt, mini)
+		scope := c.copy(opt, mini).setTiming(c.timing)
 
 		// Obtain either the zero value or Reset() the value
 		resetOnFirstOccur := !opt.internalFlags().merge()
-- 
2.43.0


From cad6edb6901c6a508e05933b975a487ef9daf51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:12 +0000
Subject: [PATCH 078/105] fix: only the last occurrence of a flag which sets an
 argument of a provider has effect

---
 extensions/provider/provider.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index 5c45806..84207f9 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -184,8 +184,9 @@ func validFactory(fn any) bool {
 // ArgumentFlag obtains a conventions-based flag for setting an argument
 func (v *Value) ArgumentFlag() cli.Prototype {
 	return cli.Prototype{
-		Name:  "arg",
-		Value: new(string),
+		Name:    "arg",
+		Value:   new(string),
+		Options: cli.EachOccurrence,
 		Setup: cli.Setup{
 			Uses: cli.Pipeline(
 				cli.Bind(v.Set),
@@ -223,6 +224,7 @@ func SetArgument(name string) cli.Action {
 	return cli.Prototype{
 		Name:     name + "-arg",
 		Value:    new(string),
+		Options:  cli.EachOccurrence,
 		HelpText: fmt.Sprintf("Sets an argument for %s", name),
 		Setup: cli.Setup{
 			Action: cli.BindIndirect(name, (*Value).Set),
-- 
2.43.0


From 5d6bd60a0dee01c4ab0456f16a5101c78159f46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:14 +0000
Subject: [PATCH 079/105] fix: a provider with a Value or without a Factory
 panics when it is created

---
 extensions/provider/provider.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index 84207f9..9f0359a 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -360,6 +360,12 @@ func (r *Registry) New(name string, opts map[string]string) (any, error) {
 	if !ok {
 		return nil, fmt.Errorf("provider not found: %q", name)
 	}
+	if fac == nil {
+		if pro.Value == nil {
+			return nil, fmt.Errorf("provider cannot be created: %q", name)
+		}
+		return pro.Value, nil
+	}
 	return fac(mergedOpts)
 }
 
-- 
2.43.0


From d4e2422e9dfd6b0d48ed85616f73a10ba7627d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:41 +0000
Subject: [PATCH 080/105] fix: a Registry in the Uses pipeline of a flag has no
 effect

---
 extensions/provider/provider.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index 9f0359a..4d9d98f 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -371,6 +371,10 @@ func (r *Registry) New(name string, opts map[string]string) (any, error) {
 
 func (r *Registry) Execute(c context.Context) error {
 	return cli.Do(c, cli.Before(cli.ActionFunc(func(c1 *cli.Context) error {
+		// The registry of a flag or arg is used by its command
+		if !c1.IsCommand() && c1.Parent() != nil {
+			c1 = c1.Parent()
+		}
 		Services(c1).registries[r.Name] = r
 		return nil
 	})))
-- 
2.43.0


From 55cb50c25b6b7dcbdc34f6f119a9bf94a29a5f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:05 +0000
Subject: [PATCH 081/105] fix: an argument flag of a provider can change its
 name and set unknown arguments

---
 extensions/provider/provider.go | 34 +++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index 4d9d98f..ff0d36d 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -189,7 +189,10 @@ func (v *Value) ArgumentFlag() cli.Prototype {
 		Options: cli.EachOccurrence,
 		Setup: cli.Setup{
 			Uses: cli.Pipeline(
-				cli.Bind(v.Set),
+				cli.Bind(v.setArgument),
+				cli.At(cli.ActionTiming, cli.ActionFunc(func(c *cli.Context) error {
+					return v.validateArguments(c, fmt.Sprint(c.Data()["DependentFlag"]))
+				})),
 				func(c *cli.Context) {
 					c.SetHelpText(fmt.Sprintf("Sets an argument for %s", c.Data()["DependentFlag"]))
 				},
@@ -227,7 +230,12 @@ func SetArgument(name string) cli.Action {
 		Options:  cli.EachOccurrence,
 		HelpText: fmt.Sprintf("Sets an argument for %s", name),
 		Setup: cli.Setup{
-			Action: cli.BindIndirect(name, (*Value).Set),
+			Action: cli.Pipeline(
+				cli.BindIndirect(name, (*Value).setArgument),
+				func(c *cli.Context) error {
+					return c.Value(name).(*Value).validateArguments(c, name)
+				},
+			),
 		},
 	}
 }
@@ -295,6 +303,12 @@ func (v *Value) Set(arg string) error {
 	return cli.Set(v.Args, args...)
 }
 
+// setArgument sets arguments only, even if the name of the provider isn't set
+func (v *Value) setArgument(arg string) error {
+	v.setName = true
+	return v.Set(arg)
+}
+
 // String obtains the textual representation
 func (v *Value) String() string {
 	var buf bytes.Buffer
@@ -327,11 +341,23 @@ func validateProviderExists(c *cli.Context) error {
 	if registry.AllowUnknown {
 		return nil
 	}
+	if _, exists := registry.LookupProvider(v.Name); !exists {
+		return fmt.Errorf("unknown %q %s", v.Name, provider)
+	}
+	return v.validateArguments(c, provider)
+}
+
+func (v *Value) validateArguments(c *cli.Context, provider string) error {
+	registry := Services(c).Registry(provider)
+	if registry == nil || registry.AllowUnknown {
+		return nil
+	}
 	pro, exists := registry.LookupProvider(v.Name)
-	p := pro.Defaults
 	if !exists {
-		return fmt.Errorf("unknown %q %s", v.Name, provider)
+		// Without a valid name, there is no provider to which arguments apply
+		return nil
 	}
+	p := pro.Defaults
 	for k := range v.rawArgs {
 		if _, exists := p[k]; !exists {
 			return fmt.Errorf("unknown argument %q for %q %s", k, v.Name, provider)
-- 
2.43.0


From a6229d924326674a1ccd73f26c8064f3d414115c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:06 +0000
Subject: [PATCH 082/105] fix: the text of a provider without arguments or with
 the default arguments

---
 extensions/provider/provider.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index ff0d36d..863f0e2 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -314,13 +314,19 @@ func (v *Value) String() string {
 	var buf bytes.Buffer
 	buf.WriteString(v.Name)
 
+	var args string
 	switch val := v.Args.(type) {
+	case nil:
 	case map[string]string:
-		buf.WriteString(",")
-		buf.WriteString(support.FormatMap(val, ","))
+		args = support.FormatMap(val, ",")
+	case *map[string]string:
+		args = support.FormatMap(*val, ",")
 	default:
+		args = fmt.Sprint(val)
+	}
+	if args != "" {
 		buf.WriteString(",")
-		buf.WriteString(fmt.Sprint(val))
+		buf.WriteString(args)
 	}
 	return buf.String()
 }
-- 
2.43.0


From 62d4f253ac236bcd8629a51b94c6a09d5b061e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:53 +0000
Subject: [PATCH 083/105] fix: setting a field of a structure panics when it is
 a Value that is nil

---
 extensions/structure/structure.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/extensions/structure/structure.go b/extensions/structure/structure.go
index 99602f4..fd4d690 100644
--- a/extensions/structure/structure.go
+++ b/extensions/structure/structure.go
@@ -150,6 +150,17 @@ func valueHook(from, to reflect.Value) (any, error) {
 		return from.Interface(), nil
 	}
 
+	switch to.Kind() {
+	case reflect.Pointer:
+		if to.IsNil() {
+			to = reflect.New(to.Type().Elem())
+		}
+	case reflect.Interface:
+		if to.IsNil() {
+			return from.Interface(), nil
+		}
+	}
+
 	result := to.Interface()
 	err := result.(cli.Value).Set(from.String())
 	return result, err
-- 
2.43.0


From 1407434110f145550cab5ecbf1db03c0a890a422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:15 +0000
Subject: [PATCH 084/105] fix: lookups of numbers panic when the name doesn't
 exist, and decorated names aren't found in LookupValues

---
 lookup.go | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/lookup.go b/lookup.go
index 6d8619e..1d11470 100644
--- a/lookup.go
+++ b/lookup.go
@@ -98,17 +98,23 @@ func (c LookupValues) try(name any, deref bool) (any, bool) {
 		return nil, false
 	}
 
-	actual, ok := c[nameToString(name)]
-	if !ok {
-		return nil, false
+	n := nameToString(name)
+	if _, ok := c[n]; !ok {
+		return tryLookup(c, name, deref)
 	}
 
+	actual := c[n]
 	if deref {
 		return dereference(actual), true
 	}
 	return actual, true
 }
 
+func (c LookupValues) lookupValue(name string) (any, bool) {
+	v, ok := c[name]
+	return v, ok
+}
+
 // Bool obtains the value and converts it to a bool
 func (c LookupValues) Bool(name any) bool {
 	return lookupBool(c, name)
@@ -427,7 +433,7 @@ func lookupBool(c Lookup, name any) (res bool) {
 	val := c.Value(name)
 	if i, ok := val.(bool); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = reflect.ValueOf(val).Bool()
 	}
 	return
@@ -453,7 +459,7 @@ func lookupInt(c Lookup, name any) (res int) {
 	val := c.Value(name)
 	if i, ok := val.(int); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = int(reflect.ValueOf(val).Int())
 	}
 	return
@@ -463,7 +469,7 @@ func lookupInt8(c Lookup, name any) (res int8) {
 	val := c.Value(name)
 	if i, ok := val.(int8); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = int8(reflect.ValueOf(val).Int())
 	}
 	return
@@ -473,7 +479,7 @@ func lookupInt16(c Lookup, name any) (res int16) {
 	val := c.Value(name)
 	if i, ok := val.(int16); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = int16(reflect.ValueOf(val).Int())
 	}
 	return
@@ -483,7 +489,7 @@ func lookupInt32(c Lookup, name any) (res int32) {
 	val := c.Value(name)
 	if i, ok := val.(int32); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = int32(reflect.ValueOf(val).Int())
 	}
 	return
@@ -493,7 +499,7 @@ func lookupInt64(c Lookup, name any) (res int64) {
 	val := c.Value(name)
 	if i, ok := val.(int64); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = int64(reflect.ValueOf(val).Int())
 	}
 	return
@@ -503,7 +509,7 @@ func lookupUint(c Lookup, name any) (res uint) {
 	val := c.Value(name)
 	if i, ok := val.(uint); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = uint(reflect.ValueOf(val).Uint())
 	}
 	return
@@ -513,7 +519,7 @@ func lookupUint8(c Lookup, name any) (res uint8) {
 	val := c.Value(name)
 	if i, ok := val.(uint8); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = uint8(reflect.ValueOf(val).Uint())
 	}
 	return
@@ -523,7 +529,7 @@ func lookupUint16(c Lookup, name any) (res uint16) {
 	val := c.Value(name)
 	if i, ok := val.(uint16); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = uint16(reflect.ValueOf(val).Uint())
 	}
 	return
@@ -533,7 +539,7 @@ func lookupUint32(c Lookup, name any) (res uint32) {
 	val := c.Value(name)
 	if i, ok := val.(uint32); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = uint32(reflect.ValueOf(val).Uint())
 	}
 	return
@@ -543,7 +549,7 @@ func lookupUint64(c Lookup, name any) (res uint64) {
 	val := c.Value(name)
 	if i, ok := val.(uint64); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = uint64(reflect.ValueOf(val).Uint())
 	}
 	return
@@ -553,7 +559,7 @@ func lookupFloat32(c Lookup, name any) (res float32) {
 	val := c.Value(name)
 	if i, ok := val.(float32); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = float32(reflect.ValueOf(val).Float())
 	}
 	return
@@ -563,7 +569,7 @@ func lookupFloat64(c Lookup, name any) (res float64) {
 	val := c.Value(name)
 	if i, ok := val.(float64); ok {
 		res = i
-	} else {
+	} else if val != nil {
 		res = float64(reflect.ValueOf(val).Float())
 	}
 	return
-- 
2.43.0


From 30031742803d6ae704b63ecb96b84cca15ed6f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:40 +0000
Subject: [PATCH 085/105] fix: lookups of args by index panic when there is no
 such arg, and Interface doesn't support an index

---
 context.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index da36e86..7511cef 100644
--- a/context.go
+++ b/context.go
@@ -688,7 +688,7 @@ func (c *Context) Value(name any) any {
 
 	switch v := name.(type) {
 	case rune, string, nil, *Arg, *Flag, int:
-		it, _ := tryLookup(c.lookupCore, c.nameToString(v), true)
+		it, _ := c.tryValue(v, true)
 		return it
 	case contextKeyType:
 		return c
@@ -697,6 +697,16 @@ func (c *Context) Value(name any) any {
 	}
 }
 
+func (c *Context) tryValue(name any, deref bool) (any, bool) {
+	if c == nil {
+		return nil, false
+	}
+	if index, ok := name.(int); ok && c.logicalArg(index) == nil {
+		return nil, false
+	}
+	return tryLookup(c.lookupCore, c.nameToString(name), deref)
+}
+
 // Raw gets the exact value which was passed to the arg, flag including
 // the name that was used.  Value can be the empty string if no value
 // was passed
@@ -718,6 +728,9 @@ func (c *Context) rawCore(name any, occurs func(internalContext, string) []strin
 
 	switch f := name.(type) {
 	case rune, string, nil, int, *Arg, *Flag:
+		if index, ok := name.(int); ok && c.logicalArg(index) == nil {
+			return []string{}
+		}
 		d := occurs(c.internal, c.nameToString(f))
 		if f != "" && len(d) == 0 && !c.definesOption(c.nameToString(f)) {
 			return c.Parent().rawCore(c.nameToString(f), occurs)
@@ -1978,7 +1991,7 @@ func (c *Context) Bytes(name any) []byte {
 
 // Interface obtains a value by the name of the flag, arg, or other value in scope
 func (c *Context) Interface(name any) (any, bool) {
-	return tryLookup(c, name, false)
+	return c.tryValue(name, false)
 }
 
 func (v *valueTarget) contextName() string {
-- 
2.43.0


From a0861ce11384d7e24f4dcf5d92b77928c8c32b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:16 +0000
Subject: [PATCH 086/105] fix: looking up whether an option was seen panics
 when the name is a rune, an index or an arg; looking up an option by the
 empty name panics in the other kind's context

---
 context.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/context.go b/context.go
index 7511cef..fab74e7 100644
--- a/context.go
+++ b/context.go
@@ -514,7 +514,8 @@ func (c *Context) LookupFlag(name any) (*Flag, bool) {
 	case string:
 		if v == "" {
 			if c.isOption() {
-				return c.LookupFlag(c.option())
+				f, ok := c.option().(*Flag)
+				return f, ok
 			}
 			name = c.Name()
 		}
@@ -543,7 +544,8 @@ func (c *Context) LookupArg(name any) (*Arg, bool) {
 	case string:
 		if v == "" {
 			if c.isOption() {
-				return c.LookupArg(c.option())
+				a, ok := c.option().(*Arg)
+				return a, ok
 			}
 			name = c.Name()
 		}
@@ -1833,6 +1835,14 @@ func (c *Context) flow() *actionPipelines {
 }
 
 func (c *Context) lookupOption(name any) (option, bool) {
+	switch v := name.(type) {
+	case nil:
+		return c.lookupOption("")
+	case rune, *Flag:
+		return c.LookupFlag(v)
+	case int, *Arg:
+		return c.LookupArg(v)
+	}
 	if name == "" {
 		o, ok := c.target.(option)
 		return o, ok
-- 
2.43.0


From 31bb260154f0c8c4beb6c3dc74439cefdff1d1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:31 +0000
Subject: [PATCH 087/105] fix: actions of composite features are not run in
 order of hamming weight

---
 filter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filter.go b/filter.go
index 66095f3..29ec507 100644
--- a/filter.go
+++ b/filter.go
@@ -139,8 +139,9 @@ func decompose[T ~int, V any](m map[T]V) *bitSet[T, V] {
 		i++
 	}
 	sort.Slice(keys, func(i, j int) bool {
-		if bits.OnesCount(keys[i]) > bits.OnesCount(keys[j]) {
-			return true
+		x, y := bits.OnesCount(keys[i]), bits.OnesCount(keys[j])
+		if x != y {
+			return x > y
 		}
 		return keys[i] > keys[j]
 	})
-- 
2.43.0


From 5dd9d4d720ed6ba6faae4adfd87009b19f01d8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:51 +0000
Subject: [PATCH 088/105] fix: the text of combined filter modes is empty

---
 filter.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/filter.go b/filter.go
index 29ec507..5a7688c 100644
--- a/filter.go
+++ b/filter.go
@@ -96,9 +96,17 @@ func (f FilterModes) Matches(ctx context.Context) bool {
 	return true
 }
 
-// String produces a textual representation of the timing
+// String produces a textual representation of the filter modes
 func (f FilterModes) String() string {
-	return filterModeLabels[f][1]
+	return f.label(1)
+}
+
+func (f FilterModes) label(index int) string {
+	var res []string
+	for _, label := range decompose(filterModeLabels).items(f) {
+		res = append(res, label[index])
+	}
+	return strings.Join(res, ", ")
 }
 
 // MarshalText provides the textual representation
@@ -108,19 +116,24 @@ func (f FilterModes) MarshalText() ([]byte, error) {
 
 // UnmarshalText converts the textual representation
 func (f *FilterModes) UnmarshalText(b []byte) error {
-	token := strings.TrimSpace(string(b))
-	for k, y := range filterModeLabels {
-		if token == y[1] {
-			*f = k
-			return nil
+	var res FilterModes
+	for _, token := range strings.Split(string(b), ",") {
+		token = strings.TrimSpace(token)
+		for k, y := range filterModeLabels {
+			if token == y[1] {
+				res |= k
+			}
 		}
 	}
+	if res != 0 {
+		*f = res
+	}
 	return nil
 }
 
-// Describe produces a representation of the timing suitable for use in messages
+// Describe produces a representation of the filter modes suitable for use in messages
 func (f FilterModes) Describe() string {
-	return filterModeLabels[f][0]
+	return f.label(0)
 }
 
 func (f ContextFilterFunc) Matches(c context.Context) bool {
-- 
2.43.0


From 3db8c3f09f90f9cfebb57bc40f85e14dc4087816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:13 +0000
Subject: [PATCH 089/105] fix: a template gets the first name given as the name
 and value of each of its data

---
 extensions/template/template.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/template/template.go b/extensions/template/template.go
index 6da5b9c..e61f3a0 100644
--- a/extensions/template/template.go
+++ b/extensions/template/template.go
@@ -155,8 +155,8 @@ func someData(namevalues ...any) Generator {
 
 	res := make([]Generator, 0, len(namevalues)/2)
 	for i := 0; i < len(namevalues); i += 2 {
-		name := namevalues[0].(string)
-		value := namevalues[0]
+		name := namevalues[i].(string)
+		value := namevalues[i+1]
 		res = append(res, Data(name, value))
 	}
 
-- 
2.43.0


From 166ac45ba81f591a4c725a24c67fdc22b6fc7fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:30 +0000
Subject: [PATCH 090/105] fix: files in the directories of a template are not
 written to or reported from the directory

---
 extensions/template/context.go | 5 +++--
 extensions/template/file.go    | 9 ++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/extensions/template/context.go b/extensions/template/context.go
index 1194756..fc3b8ed 100644
--- a/extensions/template/context.go
+++ b/extensions/template/context.go
@@ -122,10 +122,11 @@ func (c *OutputContext) reportChange(original []byte, name string, created bool)
 	}
 
 	newContents, _ := func() ([]byte, error) {
-		f, err := c.actualFS().Open(c.File(name))
+		f, err := c.actualFS().Open(name)
 		if err != nil {
 			return nil, nil
 		}
+		defer f.Close()
 		return io.ReadAll(f)
 	}()
 	if bytes.Equal(original, newContents) {
@@ -238,7 +239,7 @@ func (c *OutputContext) pathEnsure(name string) (string, error) {
 		return name, nil
 	}
 
-	dir := filepath.Dir(name)
+	dir := filepath.Dir(filepath.Join(c.WorkDir(), name))
 	if _, err := c.actualFS().Stat(dir); os.IsNotExist(err) {
 		err = c.actualFS().MkdirAll(dir, 0755)
 		if err != nil {
diff --git a/extensions/template/file.go b/extensions/template/file.go
index cf43969..82c7178 100644
--- a/extensions/template/file.go
+++ b/extensions/template/file.go
@@ -137,14 +137,13 @@ func Gofmt() FileGenerator {
 			return err
 		}
 
-		_, err = doFileGenerate(ctx, c, name, Contents(result))
-		return err
+		return Contents(result).GenerateFile(ctx, c, name)
 	})
 }
 
 func Mode(mode fs.FileMode) FileGenerator {
 	return FileGeneratorFunc(func(ctx context.Context, c *OutputContext, name string) error {
-		return c.Chmod(name, mode)
+		return c.actualFS().Chmod(name, mode)
 	})
 }
 
@@ -155,8 +154,8 @@ func (f FileGeneratorFunc) GenerateFile(ctx context.Context, c *OutputContext, n
 	return f(ctx, c, name)
 }
 
-func (m FileMode) GenerateFile(_ context.Context, c *OutputContext, name string) error {
-	return c.Chmod(name, fs.FileMode(int(m)))
+func (m FileMode) GenerateFile(ctx context.Context, c *OutputContext, name string) error {
+	return Mode(fs.FileMode(m)).GenerateFile(ctx, c, name)
 }
 
 func (f *fileGenerator) Generate(ctx context.Context, c *OutputContext) error {
-- 
2.43.0


From 4d74d12bdba6a44394965bf988c76ce9da6939f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:32 +0000
Subject: [PATCH 091/105] fix: a dry run of a template changes the file system,
 and its files stay open

---
 extensions/template/context.go |  6 ++++++
 extensions/template/file.go    | 15 +++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/extensions/template/context.go b/extensions/template/context.go
index fc3b8ed..453b4bf 100644
--- a/extensions/template/context.go
+++ b/extensions/template/context.go
@@ -38,6 +38,9 @@ var (
 
 func (c *OutputContext) Do(ctx context.Context, gens ...Generator) error {
 	for _, g := range gens {
+		if g == nil {
+			continue
+		}
 		err := g.Generate(ctx, c)
 		if err != nil {
 			return err
@@ -238,6 +241,9 @@ func (c *OutputContext) pathEnsure(name string) (string, error) {
 	if strings.HasPrefix(name, "/") {
 		return name, nil
 	}
+	if c.DryRun {
+		return c.File(name), nil
+	}
 
 	dir := filepath.Dir(filepath.Join(c.WorkDir(), name))
 	if _, err := c.actualFS().Stat(dir); os.IsNotExist(err) {
diff --git a/extensions/template/file.go b/extensions/template/file.go
index 82c7178..337c9d4 100644
--- a/extensions/template/file.go
+++ b/extensions/template/file.go
@@ -53,6 +53,8 @@ func newGenerateContents(f generateFile) FileGeneratorFunc {
 			return err
 		}
 
+		defer file.Close()
+
 		_, err = file.(io.Writer).Write(data)
 		return err
 	}
@@ -90,6 +92,10 @@ func Touch() FileGenerator {
 		fileName := name
 		_, err := f.Stat(fileName)
 
+		if c.DryRun {
+			return nil
+		}
+
 		if os.IsNotExist(err) {
 			file, err := f.Create(name)
 			if err != nil {
@@ -123,12 +129,17 @@ func Template(tt Interface, namedata ...any) FileGenerator {
 
 func Gofmt() FileGenerator {
 	return FileGeneratorFunc(func(ctx context.Context, c *OutputContext, name string) error {
+		if c.DryRun {
+			return nil
+		}
+
 		file, err := c.FS.OpenContext(ctx, name)
 		if err != nil {
 			return err
 		}
 
 		src, err := io.ReadAll(file)
+		_ = file.Close()
 		if err != nil {
 			return err
 		}
@@ -143,6 +154,9 @@ func Gofmt() FileGenerator {
 
 func Mode(mode fs.FileMode) FileGenerator {
 	return FileGeneratorFunc(func(ctx context.Context, c *OutputContext, name string) error {
+		if c.DryRun {
+			return nil
+		}
 		return c.actualFS().Chmod(name, mode)
 	})
 }
@@ -169,6 +183,7 @@ func (f *fileGenerator) Generate(ctx context.Context, c *OutputContext) error {
 	var original []byte
 	if err == nil {
 		original, _ = io.ReadAll(file)
+		_ = file.Close()
 	}
 
 	if len(f.ops) == 0 {
-- 
2.43.0


From d4b7afc5c4e49d748224538e61d44fcf5373f76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:47 +0000
Subject: [PATCH 092/105] fix: a list of arguments for exec given to an
 operator has its values twice

---
 extensions/exec/arglist.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extensions/exec/arglist.go b/extensions/exec/arglist.go
index acaf3d0..6f201a2 100644
--- a/extensions/exec/arglist.go
+++ b/extensions/exec/arglist.go
@@ -23,6 +23,12 @@ func (l *ArgList) Set(arg string) error {
 	return nil
 }
 
+// Reset clears the list, which occurs before the values of the first occurrence
+// are set
+func (l *ArgList) Reset() {
+	*l = nil
+}
+
 func (l *ArgList) String() string {
 	args, delim := l.split() // could have implied ;
 	return strings.Join(append(args, delim), " ")
-- 
2.43.0


From cc6177f7836b842cf06a9b2290e8d846a0f7c082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:47 +0000
Subject: [PATCH 093/105] fix: an operator whose operands are not complete is
 accepted or panics

---
 extensions/expr/expr.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index ffc49c4..03f1e35 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -793,7 +793,10 @@ func parseExpressions(exprOperands []*Expr, args []string) ([]Binding, cli.Bindi
 
 		var pe *cli.ParseError
 		if err != nil {
-			pe = err.(*cli.ParseError)
+			var ok bool
+			if pe, ok = err.(*cli.ParseError); !ok {
+				return nil, nil, err
+			}
 
 			// The next operator ends the operands, which have to be complete
 			if pe.Code == cli.UnknownOption {
@@ -806,9 +809,10 @@ func parseExpressions(exprOperands []*Expr, args []string) ([]Binding, cli.Bindi
 			args = pe.Remaining
 
 			switch pe.Code {
+			case cli.UnknownOption:
 			case cli.UnexpectedArgument:
 				return nil, nil, argsMustPrecedeExprs(args[0])
-			case cli.ExpectedArgument:
+			default:
 				return nil, nil, pe
 			}
 		}
-- 
2.43.0


From 1edc11f2a9b1277a3eec5190335ff93172987888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:50 +0000
Subject: [PATCH 094/105] fix: removing a command by its index panics

---
 command.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/command.go b/command.go
index 5af046c..9b492fc 100644
--- a/command.go
+++ b/command.go
@@ -830,6 +830,15 @@ func findCommandByName(cmds []*Command, v any) (*Command, int, bool) {
 		}
 		return nil, -1, false
 	}
+	if index, ok := v.(int); ok {
+		if index < 0 {
+			index = len(cmds) + index
+		}
+		if index >= 0 && index < len(cmds) {
+			return cmds[index], index, true
+		}
+		return nil, -1, false
+	}
 
 	name := v.(string)
 	for index, sub := range cmds {
-- 
2.43.0


From 851056e84bd827cdcda0ccee3bb086a90934c309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:50 +0000
Subject: [PATCH 095/105] fix: a prototype erases the texts of an expression
 operator

---
 action.go | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/action.go b/action.go
index 18ac254..2018763 100644
--- a/action.go
+++ b/action.go
@@ -1539,22 +1539,22 @@ func (p Prototype) Use(action Action) Prototype {
 
 func (p *Prototype) copyCommonToTarget(c *Context) error {
 	o := c.target
-	if o.category() == "" {
+	if o.category() == "" && p.Category != "" {
 		o.setCategory(p.Category)
 	}
-	if o.helpText() == "" {
+	if o.helpText() == "" && p.HelpText != "" {
 		o.setHelpText(p.HelpText)
 	}
-	if o.manualText() == "" {
+	if o.manualText() == "" && p.ManualText != "" {
 		o.setManualText(p.ManualText)
 	}
-	if o.usageText() == "" {
+	if o.usageText() == "" && p.UsageText != "" {
 		o.setUsageText(p.UsageText)
 	}
-	if o.description() == "" || o.description() == nil {
+	if p.Description != nil && (o.description() == "" || o.description() == nil) {
 		o.setDescription(p.Description)
 	}
-	if o.defaultText() == "" {
+	if o.defaultText() == "" && p.DefaultText != "" {
 		o.setDefaultText(p.DefaultText)
 	}
 	return nil
@@ -1638,21 +1638,6 @@ func (p *Prototype) copyToValue(c *Context) error {
 		return nil
 	}
 
-	if o.category() == "" {
-		o.setCategory(p.Category)
-	}
-	if o.helpText() == "" {
-		o.setHelpText(p.HelpText)
-	}
-	if o.manualText() == "" {
-		o.setManualText(p.ManualText)
-	}
-	if o.usageText() == "" {
-		o.setUsageText(p.UsageText)
-	}
-	if o.description() == "" || o.description() == nil {
-		o.setDescription(p.Description)
-	}
 	for k, v := range p.Data {
 		o.SetData(k, v)
 	}
-- 
2.43.0


From 416ff4988bcd69b6f8dcf569df2f3df28c1a3409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:01 +0000
Subject: [PATCH 096/105] fix: the help, manual and usage texts of an app are
 ignored

---
 app.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/app.go b/app.go
index 412259a..49158fb 100644
--- a/app.go
+++ b/app.go
@@ -231,6 +231,9 @@ func (a *App) createRoot() *Command {
 				Subcommands: a.Commands,
 				Action:      a.Action,
 				Description: a.Description,
+				HelpText:    a.HelpText,
+				ManualText:  a.ManualText,
+				UsageText:   a.UsageText,
 				Comment:     a.Comment,
 				Data:        a.Data,
 				After:       a.After,
-- 
2.43.0


From 34a08bd4c88573983254e2b48e0bd620b711dbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:50 +0000
Subject: [PATCH 097/105] fix: an operator added while another is initialized
 is not initialized itself

---
 context.go                 |  6 ++++--
 extensions/expr/context.go | 12 ++++++++++-
 extensions/expr/expr.go    | 42 ++++++++++++++++++++++----------------
 3 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/context.go b/context.go
index fab74e7..0c7c6ee 100644
--- a/context.go
+++ b/context.go
@@ -1640,8 +1640,10 @@ func triggerOptionsHO(t Timing, on func(*Context) error) ActionFunc {
 func triggerValueTargetsHO(t Timing, on func(*Context) error) ActionFunc {
 	return func(ctx *Context) error {
 		me, _ := ctx.hookable()
-		for _, sub := range me.valueTargets() {
-			err := on(ctx.newChild(sub).setTiming(t))
+
+		// More of them can be added while these are initialized
+		for i := 0; i < len(me.valueTargets()); i++ {
+			err := on(ctx.newChild(me.valueTargets()[i]).setTiming(t))
 			if err != nil {
 				return err
 			}
diff --git a/extensions/expr/context.go b/extensions/expr/context.go
index aa1b386..92cb5e9 100644
--- a/extensions/expr/context.go
+++ b/extensions/expr/context.go
@@ -41,8 +41,18 @@ func updateExprs(c *cli.Context, fn func([]*Expr) []*Expr) error {
 		return err
 	}
 	exp := c.Arg().Value.(*Expression)
+	n := len(exp.Exprs)
 	exp.Exprs = fn(exp.Exprs)
-	return nil
+	if !exp.initialized {
+		return nil
+	}
+
+	// The others have been initialized already
+	for !c.IsArg() {
+		c = c.Parent()
+	}
+	exp.provideInitializers(c, exp.Exprs[n:])
+	return finalizeExprs(exp)
 }
 
 func requireInit(c *cli.Context) error {
diff --git a/extensions/expr/expr.go b/extensions/expr/expr.go
index 03f1e35..aae8721 100644
--- a/extensions/expr/expr.go
+++ b/extensions/expr/expr.go
@@ -104,8 +104,9 @@ type Expr struct {
 // Expression provides the parsed result of the expression that can be evaluated
 // with the given inputs.
 type Expression struct {
-	items []Binding
-	args  []string
+	items       []Binding
+	args        []string
+	initialized bool
 
 	// Exprs identifies the expression operators that are allowed
 	Exprs []*Expr
@@ -222,22 +223,8 @@ func (e *Expression) Initializer() cli.Action {
 		})
 
 	}, func(c *cli.Context) error {
-		for _, sub := range e.Exprs {
-			// As a special case, the evaluator can implement Action
-			// and be treated as part of the initialization pipeline.
-			// (One case of this is in bind.Evaluator)
-			var evalAsAction cli.Action
-			if e, ok := sub.Evaluate.(cli.Action); ok {
-				evalAsAction = e
-			}
-
-			_ = c.ProvideValueInitializer(sub, sub.Name, cli.Setup{
-				Uses:   cli.Pipeline(sub.Uses, evalAsAction, sub.Options),
-				Before: sub.Before,
-				After:  sub.After,
-			})
-		}
-
+		e.initialized = true
+		e.provideInitializers(c, e.Exprs)
 		return finalizeExprs(e)
 
 	}, cli.At(cli.ActionTiming, cli.ActionFunc(func(c *cli.Context) (err error) {
@@ -271,6 +258,25 @@ func (e *Expression) Initializer() cli.Action {
 	})))
 }
 
+// provideInitializers has the operators initialized as part of the arg
+func (e *Expression) provideInitializers(c *cli.Context, exprs []*Expr) {
+	for _, sub := range exprs {
+		// As a special case, the evaluator can implement Action
+		// and be treated as part of the initialization pipeline.
+		// (One case of this is in bind.Evaluator)
+		var evalAsAction cli.Action
+		if e, ok := sub.Evaluate.(cli.Action); ok {
+			evalAsAction = e
+		}
+
+		_ = c.ProvideValueInitializer(sub, sub.Name, cli.Setup{
+			Uses:   cli.Pipeline(sub.Uses, evalAsAction, sub.Options),
+			Before: sub.Before,
+			After:  sub.After,
+		})
+	}
+}
+
 func (e *expressionDescription) SortUsage() {
 	slices.SortFunc(e.exp.Exprs, exprsByNameOrder)
 }
-- 
2.43.0


From 035849e2c36ab2a7e0ee56f0fed50296c17458f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:31 +0000
Subject: [PATCH 098/105] fix: the help of operators without help texts in a
 category fails

---
 extensions/expr/templates.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/extensions/expr/templates.go b/extensions/expr/templates.go
index 4b0c5e8..2282b3f 100644
--- a/extensions/expr/templates.go
+++ b/extensions/expr/templates.go
@@ -18,9 +18,11 @@ type exprData struct {
 type exprDataCategory struct {
 	Undocumented bool
 	Category     string
-	VisibleExprs []*exprData
+	VisibleExprs exprDataList
 }
 
+type exprDataList []*exprData
+
 type exprDescriptionData struct {
 	VisibleExprs    []*exprData
 	ExprsByCategory []*exprDataCategory
@@ -40,6 +42,14 @@ func (s *synopsisWrapper[T]) String() string {
 	return buf.String()
 }
 
+func (e exprDataList) Names() []string {
+	res := make([]string, 0, len(e))
+	for _, x := range e {
+		res = append(res, "-"+x.Name)
+	}
+	return res
+}
+
 func exprAdapter(val *Expr) *exprData {
 	syn := val.newSynopsis()
 	return &exprData{
-- 
2.43.0


From e1b376d564eef77ebe3473ca313c1ccb546cfc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:18 +0000
Subject: [PATCH 099/105] fix: Bindings of a binding lookup doesn't know
 aliases nor the current option

---
 arg.go     | 5 ++++-
 command.go | 5 +++++
 flag.go    | 5 ++++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/arg.go b/arg.go
index 2eda1dc..365711b 100644
--- a/arg.go
+++ b/arg.go
@@ -551,7 +551,10 @@ func (o *optionContext) RawOccurrences(name string) []string {
 }
 
 func (o *optionContext) Bindings(name string) [][]string {
-	return o.parentLookup.Bindings(name)
+	if o.isOther(name) {
+		return o.parentLookup.Bindings(name)
+	}
+	return o.parentLookup.Bindings(o.option.name())
 }
 
 func (o *optionContext) BindingNames() []string {
diff --git a/command.go b/command.go
index 9b492fc..a645e35 100644
--- a/command.go
+++ b/command.go
@@ -369,6 +369,11 @@ func (c *commandContext) RawOccurrences(name string) []string {
 	return c.set.RawOccurrences(c.resolveName(name))
 }
 
+// Bindings obtains occurrences of a flag or arg, which can be named by alias
+func (c *commandContext) Bindings(name string) [][]string {
+	return c.set.Bindings(c.resolveName(name))
+}
+
 func (c *Command) buildSet(ctx *Context) *set {
 	binding := NewBinding(c.Flags, c.Args, ctx.Parent())
 	set := newSet(binding)
diff --git a/flag.go b/flag.go
index edfd16f..70a3b2d 100644
--- a/flag.go
+++ b/flag.go
@@ -372,7 +372,10 @@ func (f Flag) actualArgCounter() ArgCounter {
 }
 
 func (c *wrapOccurrenceContext) Bindings(name string) [][]string {
-	return c.parentLookup.Bindings(name)
+	if name == "" {
+		return c.rawOccurrences()[c.index : c.index+1]
+	}
+	return c.optionContext.Bindings(name)
 }
 
 func (c *wrapOccurrenceContext) BindingNames() []string {
-- 
2.43.0


From 2d7e133fcbf4b3fb24e541895996a98f5e94081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:18 +0000
Subject: [PATCH 100/105] fix: CurrentApp is lost when an app is run inside
 another

---
 app.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/app.go b/app.go
index 49158fb..4c79e79 100644
--- a/app.go
+++ b/app.go
@@ -272,9 +272,11 @@ func (a *App) Initialize(c context.Context) (context.Context, error) {
 }
 
 func provideCurrentApp(a *App) func() {
+	// The app could be run by the action of another
+	previous := CurrentApp()
 	SetCurrentApp(a)
 	return func() {
-		SetCurrentApp(nil)
+		SetCurrentApp(previous)
 	}
 }
 
-- 
2.43.0


From 035bddd75c02438dc7289238f54ae844507a3665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:09 +0000
Subject: [PATCH 101/105] fix: A flag given where an OptionalArg could be is
 taken as its value, or passes it over

---
 arg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arg.go b/arg.go
index 365711b..b80d5db 100644
--- a/arg.go
+++ b/arg.go
@@ -635,6 +635,9 @@ func (o *matchesArgsCounter) Usage() (optional, multi bool) {
 }
 
 func (o *matchesArgsCounter) Take(arg string, possibleFlag bool) error {
+	if allowFlag(arg, possibleFlag) {
+		return argCannotUseFlag
+	}
 	if o.fn(arg) && o.count < o.max {
 		o.count++
 		return nil
-- 
2.43.0


From e32081e4022b8e1ac10521acf4a8c1a3b8b4b9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:15 +0000
Subject: [PATCH 102/105] fix: the help of a command whose description isn't a
 string ends after the usage

---
 templates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index 72fb921..aec2c5d 100644
--- a/templates.go
+++ b/templates.go
@@ -129,7 +129,7 @@ usage: {{ if .SelectedCommand.Lineage -}}
 {{- .SelectedCommand.Synopsis | print | HangingIndent .SelectedCommand.HangingIndent -}}{{ "\n" }}
 
 {{- if .SelectedCommand.Description -}}
-{{ "\n" }}{{- .SelectedCommand.Description | Wrap 4 -}}
+{{ "\n" }}{{- .SelectedCommand.Description | print | Wrap 4 -}}
 {{ else if .SelectedCommand.HelpText -}}
 {{ "\n" }}{{- .SelectedCommand.HelpText | Wrap 4 -}}
 {{- end -}}
-- 
2.43.0


From e2a807d75d08a3a51b7b27f7d97b1db75346f49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:32 +0000
Subject: [PATCH 103/105] fix: the action of a flag has its default value when
 its no- mirror is given

---
 option.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/option.go b/option.go
index 91ddba8..db2e403 100644
--- a/option.go
+++ b/option.go
@@ -569,6 +569,10 @@ func noOption(c *Context) error {
 		Options:   Hidden,
 		Before: func(c *Context) error {
 			if c.Seen("") {
+				// The action of the flag, which is run first, also has the value
+				if err := c.ContextOf(f).SetValue(false); err != nil {
+					return err
+				}
 				return c.ContextOf(f).Trigger()
 			}
 			return nil
-- 
2.43.0


From bef80e89d28cd6eea1a9c9741fead3b4614b4ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:03 +0000
Subject: [PATCH 104/105] fix: the usage text of a command is left out of its
 synopsis

---
 command.go                    | 4 +++-
 internal/synopsis/synopsis.go | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/command.go b/command.go
index a645e35..1aad541 100644
--- a/command.go
+++ b/command.go
@@ -559,9 +559,11 @@ func (c *Command) newSynopsis() *synopsis.Command {
 		args[i] = a.newSynopsis()
 	}
 
-	return synopsis.NewCommand(
+	syn := synopsis.NewCommand(
 		c.Name, flags, args, c.internalFlags().rightToLeft(),
 	)
+	syn.UsageText = c.UsageText
+	return syn
 }
 
 // SetData sets the specified metadata on the command
diff --git a/internal/synopsis/synopsis.go b/internal/synopsis/synopsis.go
index 5fbc696..3319954 100644
--- a/internal/synopsis/synopsis.go
+++ b/internal/synopsis/synopsis.go
@@ -31,6 +31,7 @@ type Command struct {
 	RequiredArgs []*Arg
 	OptionalArgs []*Arg
 	RTL          bool
+	UsageText    string // when set, replaces the generated synopsis
 }
 
 type Flag struct {
@@ -204,6 +205,11 @@ func (v *Value) WriteTo(w styleWriter) {
 }
 
 func (c *Command) WriteTo(sb styleWriter) {
+	if c.UsageText != "" {
+		sb.WriteString(c.UsageText)
+		return
+	}
+
 	sb.Styled(Bold, c.Name)
 
 	if flags := c.Flags[ActionGroup]; len(flags) > 0 {
-- 
2.43.0


From 7a9b3a1738c8e2344cecbbacc9db28142fbeb40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:14 +0000
Subject: [PATCH 105/105] fix: which of several errors is reported depends on
 the iteration order of maps

---
 extensions/provider/provider.go | 3 ++-
 set.go                          | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/extensions/provider/provider.go b/extensions/provider/provider.go
index 863f0e2..487bdee 100644
--- a/extensions/provider/provider.go
+++ b/extensions/provider/provider.go
@@ -23,6 +23,7 @@ import (
 	"fmt"
 	"maps"
 	"reflect"
+	"slices"
 	"sort"
 	"strings"
 
@@ -364,7 +365,7 @@ func (v *Value) validateArguments(c *cli.Context, provider string) error {
 		return nil
 	}
 	p := pro.Defaults
-	for k := range v.rawArgs {
+	for _, k := range slices.Sorted(maps.Keys(v.rawArgs)) {
 		if _, exists := p[k]; !exists {
 			return fmt.Errorf("unknown argument %q for %q %s", k, v.Name, provider)
 		}
diff --git a/set.go b/set.go
index ff2bbd8..374f994 100644
--- a/set.go
+++ b/set.go
@@ -1,6 +1,7 @@
 package cli
 
 import (
+	"maps"
 	"slices"
 	"strings"
 	"unicode/utf8"
@@ -557,9 +558,10 @@ func (m BindingMap) RawOccurrences(name string) []string {
 }
 
 // ApplyTo uses the given binding to apply the values in the
-// map
+// map.  They are applied in order by name so that the outcome is always the same.
 func (m BindingMap) ApplyTo(b Binding) error {
-	for name, v := range m {
+	for _, name := range slices.Sorted(maps.Keys(m)) {
+		v := m[name]
 		transform, _, value, ok := b.LookupOption(name)
 		if !ok {
 			continue
@@ -580,6 +582,7 @@ func (m BindingMap) Bindings(name string) [][]string {
 
 // BindingNames obtains the names of the flags/args which are available.
 // Even if it is available, the empty string "" is not returned from this list.
+// The names are sorted.
 func (m BindingMap) BindingNames() []string {
 	keys := make([]string, 0, len(m))
 	for k := range m {
@@ -588,6 +591,7 @@ func (m BindingMap) BindingNames() []string {
 		}
 		keys = append(keys, k)
 	}
+	slices.Sort(keys)
 	return keys
 }
 
-- 
2.43.0

