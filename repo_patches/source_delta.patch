From 302a7abb28ac4113ebc61160b4d023df84997b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 01/38] fix: bsr: keep every pivot of an ambiguous string of
 symbols

---
 gen/golang/gll/bsr/bsr.go | 67 ++++++++++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 22 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index f80fa28..3041ce9 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -72,7 +72,7 @@ Set contains the set of Binary Subtree Representations (BSR).
 type Set struct {
     slotEntries   map[BSR]bool
     ntSlotEntries map[ntSlot][]BSR
-    stringEntries map[stringKey]*stringBSR
+    stringEntries map[stringKey]stringBSRs
     rightExtent   int
     lex           *lexer.Lexer
 
@@ -113,7 +113,7 @@ func New(startSymbol symbols.NT, l *lexer.Lexer) *Set {
     return &Set{
         slotEntries:   make(map[BSR]bool),
         ntSlotEntries: make(map[ntSlot][]BSR),
-        stringEntries: make(map[stringKey]*stringBSR),
+        stringEntries: make(map[stringKey]stringBSRs),
         rightExtent:   0,
         lex:           l,
         startSym:      startSymbol,
@@ -213,7 +213,7 @@ func (s *Set) GetRoots() (roots []BSR) {
 // GetAllStrings returns all string elements with symbols = str,
 // left extent = lext and right extent = rext
 func (s *Set) GetAllStrings(str symbols.Symbols, lext, rext int) (strs []*stringBSR) {
-    for _, s := range s.stringEntries {
+    for _, s := range s.stringEntries[getStringKey(str, lext, rext)] {
         if s.Symbols.Equal(str) && s.leftExtent == lext && s.rightExtent == rext {
             strs = append(strs, s)
         }
@@ -234,19 +234,21 @@ func (s *Set) getNTBSRs() BSRs {
 
 func (s *Set) getStringBSRs() stringBSRs {
     bsrs := make(stringBSRs, 0, len(s.stringEntries))
-    for _, bsr := range s.stringEntries {
-        bsrs = append(bsrs, bsr)
+    for _, strs := range s.stringEntries {
+        bsrs = append(bsrs, strs...)
     }
     sort.Sort(bsrs)
     return bsrs
 }
 
-func (s *Set) getString(symbols symbols.Symbols, leftExtent, rightExtent int) *stringBSR {
-    // fmt.Printf("Set.getString(%s,%d,%d)\n", symbols, leftExtent, rightExtent)
+// getStrings returns the strings with symbols and extent. An ambiguous string
+// has an element for each of its pivots.
+func (s *Set) getStrings(symbols symbols.Symbols, leftExtent, rightExtent int) stringBSRs {
+    // fmt.Printf("Set.getStrings(%s,%d,%d)\n", symbols, leftExtent, rightExtent)
 
-    strBsr, exist := s.stringEntries[getStringKey(symbols, leftExtent, rightExtent)]
+    strBsrs, exist := s.stringEntries[getStringKey(symbols, leftExtent, rightExtent)]
     if exist {
-        return strBsr
+        return strBsrs
     }
 
     panic(fmt.Sprintf("Error: no string %s left extent=%d right extent=%d\n",
@@ -263,7 +265,12 @@ func (s *Set) insert(bsr bsr) {
         nt := ntSlot{b.Label.Head(), b.leftExtent, b.rightExtent}
         s.ntSlotEntries[nt] = append(s.ntSlotEntries[nt], b)
     case *stringBSR:
-        s.stringEntries[b.key()] = b
+        for _, b1 := range s.stringEntries[b.key()] {
+            if b1.pivot == b.pivot {
+                return
+            }
+        }
+        s.stringEntries[b.key()] = append(s.stringEntries[b.key()], b)
     default:
         panic(fmt.Sprintf("Invalid type %T", bsr))
     }
@@ -354,19 +361,15 @@ func (b BSR) GetNTChildrenI(i int) []BSR {
         return b.set.getNTSlot(b.Label.Symbols()[i], b.pivot, b.rightExtent)
     }
 
-    // Walk to pos i from the right
-    symbols := b.Label.Symbols()[:b.Label.Pos()-1]
-    str := b.set.getString(symbols, b.leftExtent, b.pivot)
-    for len(symbols) > i+1 && len(symbols) > 2 {
-        symbols = symbols[:len(symbols)-1]
-        str = b.set.getString(symbols, str.leftExtent, str.pivot)
-    }
-
     bsrs := []BSR{}
-    if i == 0 {
-        bsrs = b.set.getNTSlot(b.Label.Symbols()[i], str.leftExtent, str.pivot)
-    } else {
-        bsrs = b.set.getNTSlot(b.Label.Symbols()[i], str.pivot, str.rightExtent)
+    pivots := map[int]bool{}
+    for _, str := range b.walkStrings(i) {
+        if i > 0 {
+            bsrs = append(bsrs, b.set.getNTSlot(b.Label.Symbols()[i], str.pivot, str.rightExtent)...)
+        } else if !pivots[str.pivot] {
+            pivots[str.pivot] = true
+            bsrs = append(bsrs, b.set.getNTSlot(b.Label.Symbols()[i], str.leftExtent, str.pivot)...)
+        }
     }
 
     // fmt.Println(bsrs)
@@ -374,6 +377,26 @@ func (b BSR) GetNTChildrenI(i int) []BSR {
     return bsrs
 }
 
+// walkStrings walks from the right to the strings of b that end in symbol i, or
+// in symbol 1 if i is 0. b must have more than two symbols and i must not be
+// the last one. There is more than one string if a symbol of b up to i+1 is ambiguous.
+func (b BSR) walkStrings(i int) stringBSRs {
+    symbols := b.Label.Symbols()[:b.Label.Pos()-1]
+    strs := b.set.getStrings(symbols, b.leftExtent, b.pivot)
+    for len(symbols) > i+1 && len(symbols) > 2 {
+        symbols = symbols[:len(symbols)-1]
+        next, pivots := stringBSRs{}, map[int]bool{}
+        for _, str := range strs {
+            if !pivots[str.pivot] {
+                pivots[str.pivot] = true
+                next = append(next, b.set.getStrings(symbols, str.leftExtent, str.pivot)...)
+            }
+        }
+        strs = next
+    }
+    return strs
+}
+
 // GetTChildI returns the terminal symbol at position i in b.
 // GetTChildI panics if symbol i is not a valid terminal
 func (b BSR) GetTChildI(i int) *token.Token {
-- 
2.43.0


From b852558c6886d40c2e45edb8353ccf5e8dc75bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 02/38] fix: bsr: do not list a subtree more than once

---
 gen/golang/gll/bsr/bsr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index 3041ce9..91ba785 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -261,6 +261,9 @@ func (s *Set) insert(bsr bsr) {
     }
     switch b := bsr.(type) {
     case BSR:
+        if s.slotEntries[b] {
+            return
+        }
         s.slotEntries[b] = true
         nt := ntSlot{b.Label.Head(), b.leftExtent, b.rightExtent}
         s.ntSlotEntries[nt] = append(s.ntSlotEntries[nt], b)
-- 
2.43.0


From a87d59b6500a9ad46e39e324973393c123b21208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 03/38] fix: bsr: ToSPPF must not overwrite the symbols of the
 grammar slots

---
 gen/golang/gll/bsr/bsr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index 91ba785..cd1b091 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -652,7 +652,7 @@ func (pf *Set) ToSPPF() *sppf.SymbolNode {
                 // for each (α,i,k, j)∈Υ { mkPN(X ::=α·δ,i,k, j,G) } } } }
                 alpha, delta := in.Body[:in.Pos], in.Body[in.Pos:]
                 for _, str := range pf.GetAllStrings(alpha, in.Lext, in.Rext) {
-                    body := append(str.Symbols, delta...)
+                    body := append(append(symbols.Symbols{}, str.Symbols...), delta...)
                     in.Children = append(in.Children,
                         bld.mkPN(in.NT, body, in.Pos, str.leftExtent, str.pivot, str.rightExtent))
                 }
-- 
2.43.0


From 157becd0507dffdbe888b4ddc35652016f512753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 04/38] fix: bsr: GetTChildI finds a terminal that follows an
 ambiguous nonterminal

---
 gen/golang/gll/bsr/bsr.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index cd1b091..5ac3417 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -413,12 +413,16 @@ func (b BSR) GetTChildI(i int) *token.Token {
     }
 
     lext := b.leftExtent
-    for j := 0; j < i; j++ {
-        if symbols[j].IsNonTerminal() {
-            nt := b.GetNTChildI(j)
-            lext += nt.rightExtent - nt.leftExtent
-        } else {
-            lext++
+    if i > 0 {
+        lext = b.pivot
+    }
+    if i > 0 && i < len(symbols)-1 {
+        strs := b.walkStrings(i)
+        lext = strs[0].pivot
+        for _, str := range strs {
+            if str.pivot != lext {
+                b.set.fail(b, "T %d is ambiguous in %s", i, b)
+            }
         }
     }
     return b.set.lex.Tokens[lext]
-- 
2.43.0


From 6c4a70f33d25c8586f0c72e7e0305cb76abbac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:06 +0000
Subject: [PATCH 05/38] fix: gll: report an error when input follows a complete
 parse of the start symbol

---
 gen/golang/gll/parser.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gen/golang/gll/parser.go b/gen/golang/gll/parser.go
index 8f66094..a1c1893 100644
--- a/gen/golang/gll/parser.go
+++ b/gen/golang/gll/parser.go
@@ -171,12 +171,24 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 		}
 	}
 	if !p.bsrSet.Contain(symbols.NT_{{.StartSymbol}}, 0, m) {
+		p.inputAfterStartSymbol(m)
 		p.sortParseErrors()
 		return nil, p.parseErrors
 	}
 	return p.bsrSet, nil
 }
 
+// inputAfterStartSymbol reports an error at every position before m at which
+// the start symbol was completely parsed but the input did not end.
+func (p *parser) inputAfterStartSymbol(m int) {
+	for j := 0; j < m; j++ {
+		if p.popped[poppedNode{symbols.NT_{{.StartSymbol}}, 0, j}] {
+			p.parseError(slot.GetAlternates(symbols.NT_{{.StartSymbol}})[0], j,
+				map[token.Type]string{token.EOF: "$"})
+		}
+	}
+}
+
 func (p *parser) ntAdd(nt symbols.NT, j int) {
 	// fmt.Printf("p.ntAdd(%s, %d)\n", nt, j)
 	failed := true
-- 
2.43.0


From 745b9c995731ca3afde7dd1b9d89b486f14d0aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 06/38] fix: lr1: generate an AST action for empty alternates

---
 gen/golang/lr1/ast/ast.go                 |  2 +-
 gen/golang/lr1/parser/productionstable.go | 15 +++++----------
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/gen/golang/lr1/ast/ast.go b/gen/golang/lr1/ast/ast.go
index 71aa95c..069846a 100644
--- a/gen/golang/lr1/ast/ast.go
+++ b/gen/golang/lr1/ast/ast.go
@@ -137,7 +137,7 @@ import(
 
 {{range $bprod := .BasicProds}}{{$bp := $bprod}}
 // {{$bp.Comment}}
-func {{$bp.ID}}({{range $i, $p := $bp.Params}}{{if ne $i 0}}, {{end}}p{{$i}}{{end}} interface{})(interface{}, error){
+func {{$bp.ID}}({{range $i, $p := $bp.Params}}{{if ne $i 0}}, {{end}}p{{$i}}{{end}}{{if $bp.Params}} interface{}{{end}})(interface{}, error){
     fmt.Println("ast.{{$bprod.ID}} is unimplemented")
     return nil, nil
 }
diff --git a/gen/golang/lr1/parser/productionstable.go b/gen/golang/lr1/parser/productionstable.go
index b9a27aa..344b644 100644
--- a/gen/golang/lr1/parser/productionstable.go
+++ b/gen/golang/lr1/parser/productionstable.go
@@ -50,16 +50,11 @@ func getProdsTab(pkg string, prods []*basicprod.Production, states *states.State
 		data.ProdTab[i].String = fmt.Sprintf("`%s`", prod.String())
 		data.ProdTab[i].Id = prod.Head
 		data.ProdTab[i].NTType = int(symbols.GetNTType(prod.Head))
-		if len(prod.Body.Symbols) == 0 {
-			data.ProdTab[i].NumSymbols = 0
-			data.ProdTab[i].ReduceFunc = fmt.Sprintf("nil, nil")
-		} else {
-			data.ProdTab[i].NumSymbols = len(prod.Body.Symbols)
-			data.ProdTab[i].ReduceFunc = fmt.Sprintf("%s%d(%s)",
-				prod.Head,
-				prod.Alternate,
-				getParamIDs(len(prod.Body.Symbols)))
-		}
+		data.ProdTab[i].NumSymbols = len(prod.Body.Symbols)
+		data.ProdTab[i].ReduceFunc = fmt.Sprintf("%s%d(%s)",
+			prod.Head,
+			prod.Alternate,
+			getParamIDs(len(prod.Body.Symbols)))
 	}
 
 	return data
-- 
2.43.0


From 11bd11b05a1f7624c337262e4d5a48dc26dcff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:58 +0000
Subject: [PATCH 07/38] fix: lr1: return the value of the action of the start
 production, G00

---
 gen/golang/lr1/parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gen/golang/lr1/parser/parser.go b/gen/golang/lr1/parser/parser.go
index dc82045..d9b9ae8 100644
--- a/gen/golang/lr1/parser/parser.go
+++ b/gen/golang/lr1/parser/parser.go
@@ -256,7 +256,10 @@ func (p *Parser) Parse() (res interface{}, err error) {
 
 		switch act := action.(type) {
 		case accept:
-			res = p.stack.popN(1)[0]
+			// The start production, G0
+			if res, err = productionsTable[0].ReduceFunc(p.stack.popN(1)); err != nil {
+				return nil, p.newError(err)
+			}
 			acc = true
 		case shift:
 			p.stack.push(int(act), p.nextToken)
-- 
2.43.0


From dfbf6669062114ab6b0976b7d6fa096f39babc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 08/38] fix: lr1: report a conflict with accept instead of
 panicking

---
 lr1/action/action.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lr1/action/action.go b/lr1/action/action.go
index 3bdc614..af0aaff 100644
--- a/lr1/action/action.go
+++ b/lr1/action/action.go
@@ -110,11 +110,9 @@ func (this Shift) Equal(act Action) bool {
 	return false
 }
 
+// Accept is the reduction of the first basic production, G0
 func (this Accept) ResolveConflict(that Action) Action {
-	if _, ok := that.(Error); ok {
-		return this
-	}
-	panic(fmt.Sprintf("Cannot have LR1 conflict with Accept."))
+	return this
 }
 
 func (Error) ResolveConflict(that Action) Action {
@@ -138,7 +136,7 @@ func (this Shift) ResolveConflict(that Action) Action {
 func (this Reduce) ResolveConflict(that Action) Action {
 	switch that := that.(type) {
 	case Accept:
-		panic(fmt.Sprintf("Impossible conflict: Shift(%d)/Accept", int(this)))
+		return that
 	case Shift:
 		return that
 	case Error:
-- 
2.43.0


From 0b3d19a7fa939ed004f81f0a4672af2ae68f76a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 09/38] fix: lr1: do not claim that unresolved conflicts were
 resolved

---
 lr1/gen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lr1/gen.go b/lr1/gen.go
index ac75b73..092cd01 100644
--- a/lr1/gen.go
+++ b/lr1/gen.go
@@ -52,12 +52,12 @@ func Gen(g *ast.GoGLL) ([]*basicprod.Production, *states.States, action.Actions)
 
 func handleConflicts(conflicts [][]*action.Conflict, states *states.States) {
 	if numConflicts(conflicts) > 0 {
-		fmt.Printf("%d LR(1) conflicts. See LR1_conflicts.txt", numConflicts(conflicts))
+		fmt.Printf("%d LR(1) conflicts. See LR1_conflicts.txt\n", numConflicts(conflicts))
 		writeConflicts(conflicts)
 		if !*cfg.AutoResolveLRConf {
-			fmt.Println("LR(1) conflicts were automatically resolved")
 			os.Exit(1)
 		}
+		fmt.Println("LR(1) conflicts were automatically resolved")
 	}
 }
 
-- 
2.43.0


From c986fdb1df7c030f25724e444f97a51586b06a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:26 +0000
Subject: [PATCH 10/38] fix: lr1: propagate context that is added to a
 configuration group of a closure

---
 lr1/states/state.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lr1/states/state.go b/lr1/states/state.go
index 25d9a13..a75b1ac 100644
--- a/lr1/states/state.go
+++ b/lr1/states/state.go
@@ -76,8 +76,9 @@ func (this *State) Closure() *State {
 				if oldCfgGrp := this.GetGroup(newCfgGrp); oldCfgGrp == nil {
 					this.Add(newCfgGrp)
 					cgList = append(cgList, newCfgGrp)
-				} else {
-					oldCfgGrp.AddContext(newCfgGrp.ContextSet.List...)
+				} else if oldCfgGrp.ContextSet.Add(newCfgGrp.ContextSet.List...) {
+					// The new context must be propagated
+					cgList = append(cgList, oldCfgGrp)
 				}
 			}
 		}
-- 
2.43.0


From 64cc92cbfdf0558304c0e2a1374a6a7b4fff5197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:46 +0000
Subject: [PATCH 11/38] fix: lr1: Pager machine: weak compatibility and
 propagation of context

---
 lr1/pgm/states.go | 136 +++++++++++++++++++++-------------------------
 1 file changed, 63 insertions(+), 73 deletions(-)

diff --git a/lr1/pgm/states.go b/lr1/pgm/states.go
index 8856541..5418c3d 100644
--- a/lr1/pgm/states.go
+++ b/lr1/pgm/states.go
@@ -13,23 +13,34 @@ func States(symbols []string, lr0items *items.Items, first *first.First) *states
 	}
 	s.NewState0(symbols, lr0items, first, states.NewConfigGroup(lr0items.List[0], "$"))
 	symSuccessors := symbolsuccessors.NewSymbolSuccessors()
-	for si := 0; si < len(s.List); si++ {
+
+	// The states whose transitions must be computed. A state is queued again
+	// when its context grows.
+	queue := []*states.State{s.List[0]}
+	queued := map[*states.State]bool{s.List[0]: true}
+	enqueue := func(state *states.State) {
+		if !queued[state] {
+			queue = append(queue, state)
+			queued[state] = true
+		}
+	}
+
+	for len(queue) > 0 {
+		si := queue[0]
+		queue = queue[1:]
+		queued[si] = false
+
 		st_trans := make([]states.Transition, 0, 4)
-		for _, trans := range s.List[si].Next().List() {
+		for _, trans := range si.Next().List() {
 			merged := false
 			for _, snum := range symSuccessors[trans.Sym] {
 				if weaklyCompatibleStates(s.List[snum], trans.State) {
 					merged = true
-					newStates := mergeStates(s.List[snum], trans.State)
-					for sym, states := range newStates {
-						for _, state := range states {
-							s.List = append(s.List, state)
-							state.Number = len(s.List) - 1
-							symSuccessors[sym] = append(symSuccessors[sym], state.Number)
-						}
+					if mergeStates(s.List[snum], trans.State) {
+						enqueue(s.List[snum])
 					}
-
 					st_trans = append(st_trans, states.Transition{Sym: trans.Sym, State: s.List[snum]})
+					break
 				}
 			}
 			if !merged {
@@ -37,69 +48,52 @@ func States(symbols []string, lr0items *items.Items, first *first.First) *states
 				s.List = append(s.List, trans.State)
 				trans.State.Number = len(s.List) - 1
 				symSuccessors[trans.Sym] = append(symSuccessors[trans.Sym], trans.State.Number)
+				enqueue(trans.State)
 			}
 		}
-		s.List[si].Transitions = states.NewTransitionsList(st_trans, symbols)
+		si.Transitions = states.NewTransitionsList(st_trans, symbols)
 	}
+	removeUnreachable(s)
 	// s.GenActions()
 	return s
 }
 
-func makeContext(from *states.ConfigGroupSet, to *states.ConfigGroupSet) *states.ConfigGroupSet {
-	newNucleus := to.CloneFromCore()
-	for _, cfg := range from.List() {
-		if toCfg := newNucleus.GetGroupByCore(cfg.Item.NextItem); toCfg != nil {
-			toCfg.AddContext(cfg.ContextSet.List...)
-		}
-	}
-	return newNucleus
-}
-
-func mergeStates(this *states.State, that *states.State) (newStates map[string][]*states.State) {
-	oldNucleus := this.Nucleus.Clone()
-	mergeCfgGrpSet(this.Nucleus, that.Nucleus)
-	this.NonNucleus = states.NewConfigGroupSet()
-	this.Closure()
-	cfgDiff := this.Nucleus.ContextDiff(oldNucleus)
-	cfgDiff.Add(this.NonNucleus.List()...)
-	return propagateContext(this, cfgDiff)
-}
-
 /*
-The context of all config groups in that, which give context to the nucleus group of this,
-is merged into the nucleus of this.
+Merge the context of that into this. Return true iff the context of this changed.
 */
-func mergeContext(this *states.State, thatNucleus *states.ConfigGroupSet) {
-	for _, grp := range thatNucleus.List() {
-		this.Nucleus.GetGroup(grp).AddContext(grp.ContextSet.List...)
+func mergeStates(this *states.State, that *states.State) bool {
+	oldNucleus := this.Nucleus.Clone()
+	mergeCfgGrpSet(this.Nucleus, that.Nucleus)
+	if this.Nucleus.Equal(oldNucleus) {
+		return false
 	}
 	this.NonNucleus = states.NewConfigGroupSet()
 	this.Closure()
+	return true
 }
 
 /*
-Return a map of (symbol:*states.State) of newly generated states. Each new state has minus the same number as the one it replaces.
-For example: The existing set has number 10 and the new state -10. The caller of this function must resolve
-the state numbers as other sets may still have valid transitions to the original.
+Remove the states, which lost their last predecessor when the context of the
+predecessor grew, and renumber the rest.
 */
-func propagateContext(this *states.State, expandedNucleusCfGrps *states.ConfigGroupSet) (newStates map[string][]*states.State) {
-	newStates = make(map[string][]*states.State)
-	if this.Transitions == nil {
-		return
+func removeUnreachable(s *states.States) {
+	reachable := map[*states.State]bool{s.List[0]: true}
+	for todo := []*states.State{s.List[0]}; len(todo) > 0; todo = todo[1:] {
+		for _, t := range todo[0].Transitions.List() {
+			if !reachable[t.State] {
+				reachable[t.State] = true
+				todo = append(todo, t.State)
+			}
+		}
 	}
-	for _, t := range this.Transitions.List() {
-		sym, nextState := t.Sym, t.State
-		newNucleus := makeContext(expandedNucleusCfGrps, nextState.Nucleus)
-		if weaklyCompatibleCfgGrpSet(nextState.Nucleus, newNucleus) {
-			mergeContext(nextState, newNucleus)
-		} else {
-			newState := this.NextSymbol(sym)
-			newState.Number = -nextState.Number
-			this.Transitions.Replace(sym, newState)
-			newStates[sym] = append(newStates[sym], newState)
+	list := make([]*states.State, 0, len(s.List))
+	for _, state := range s.List {
+		if reachable[state] {
+			state.Number = len(list)
+			list = append(list, state)
 		}
 	}
-	return
+	s.List = list
 }
 
 func weaklyCompatibleStates(this *states.State, that *states.State) bool {
@@ -114,20 +108,23 @@ func mergeCfgGrpSet(this *states.ConfigGroupSet, that *states.ConfigGroupSet) {
 	}
 }
 
+/*
+Pager's weak compatibility: this and that have the same core and for every pair
+of distinct core items (i, j) at least one of the following is true:
+  - this context i is disjunct from that context j and this context j from that context i;
+  - this contexts i and j are not disjunct;
+  - that contexts i and j are not disjunct.
+*/
 func weaklyCompatibleCfgGrpSet(this *states.ConfigGroupSet, that *states.ConfigGroupSet) bool {
 	if !this.CoreEqual(that) {
 		return false
 	}
-	if contextMutuallyDisjunct(this, that) {
-		return true
-	}
-	return !contextInternallyDisjunct(this) || !contextInternallyDisjunct(that)
-}
-
-func contextMutuallyDisjunct(this *states.ConfigGroupSet, that *states.ConfigGroupSet) bool {
-	for _, thisCfgGrp := range this.List() {
-		for _, thatCfgGrp := range that.List() {
-			if thisCfgGrp.HashKey() != thatCfgGrp.HashKey() && len(thisCfgGrp.ContextSet.Intersection(thatCfgGrp.ContextSet)) > 0 {
+	for i, thisI := range this.List() {
+		thatI := that.GetGroup(thisI)
+		for _, thisJ := range this.List()[i+1:] {
+			thatJ := that.GetGroup(thisJ)
+			if (intersect(thisI, thatJ) || intersect(thisJ, thatI)) &&
+				!intersect(thisI, thisJ) && !intersect(thatI, thatJ) {
 				return false
 			}
 		}
@@ -135,13 +132,6 @@ func contextMutuallyDisjunct(this *states.ConfigGroupSet, that *states.ConfigGro
 	return true
 }
 
-func contextInternallyDisjunct(this *states.ConfigGroupSet) bool {
-	for i := 0; i < len(this.List())-1; i++ {
-		for j := i + 1; j < len(this.List()); j++ {
-			if len(this.List()[i].ContextSet.Intersection(this.List()[j].ContextSet)) > 0 {
-				return false
-			}
-		}
-	}
-	return true
+func intersect(this *states.ConfigGroup, that *states.ConfigGroup) bool {
+	return len(this.ContextSet.Intersection(that.ContextSet)) > 0
 }
-- 
2.43.0


From d6436f118b9dc42232fa608f0da648733745d051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:23 +0000
Subject: [PATCH 12/38] fix: make the transitions of overlapping lexical
 symbols disjoint

Symbols that overlap without one containing the other (any "ab" and any
"bc", letter and any "a1", ...) lost the items of one of them, depending
on the order of the transitions.
---
 ast/lex.go                |  63 +++++
 gen/golang/lexer/lexer.go |   7 +
 gen/rust/lexer/lexer.go   |   7 +
 lex/items/event/event.go  | 496 ++++++++++++++++++--------------------
 lex/items/items.go        |   4 +-
 5 files changed, 314 insertions(+), 263 deletions(-)

diff --git a/ast/lex.go b/ast/lex.go
index 6fc4c8d..a2bb8a6 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -41,6 +41,12 @@ const (
 	True
 )
 
+// AllOf contains the runes that are in all its symbols. It is made by the
+// compiler from overlapping symbols.
+type AllOf struct {
+	Symbols []LexBase
+}
+
 type Any struct {
 	tok *token.Token
 }
@@ -77,6 +83,7 @@ type LexBase interface {
 	Equal(LexBase) bool
 }
 
+func (*AllOf) isLexBase()        {}
 func (*Any) isLexBase()          {}
 func (*AnyOf) isLexBase()        {}
 func (*CharLiteral) isLexBase()  {}
@@ -96,6 +103,7 @@ type LexSymbol interface {
 	String() string
 }
 
+func (*AllOf) isLexSymbol()        {}
 func (*Any) isLexSymbol()          {}
 func (*AnyOf) isLexSymbol()        {}
 func (*CharLiteral) isLexSymbol()  {}
@@ -157,6 +165,37 @@ const (
 
 /*** Methods ***/
 
+func (a *AllOf) Equal(other LexBase) bool {
+	if other == nil {
+		return false
+	}
+	a1, ok := other.(*AllOf)
+	if !ok || len(a.Symbols) != len(a1.Symbols) {
+		return false
+	}
+	for i, sym := range a.Symbols {
+		if !sym.Equal(a1.Symbols[i]) {
+			return false
+		}
+	}
+	return true
+}
+
+func (a *AllOf) Lext() int {
+	return a.Symbols[0].Lext()
+}
+
+func (a *AllOf) String() string {
+	w := new(bytes.Buffer)
+	for i, sym := range a.Symbols {
+		if i > 0 {
+			fmt.Fprint(w, " & ")
+		}
+		fmt.Fprint(w, sym)
+	}
+	return w.String()
+}
+
 func (*Any) Equal(other LexBase) bool {
 	if other == nil {
 		return false
@@ -318,6 +357,9 @@ func (*Any) String() string {
 }
 
 func (a *AnyOf) String() string {
+	if a.strLit == nil {
+		return fmt.Sprintf("any %q", string(a.Set.Elements()))
+	}
 	return fmt.Sprintf("any %s", string(a.strLit.Literal()))
 }
 
@@ -440,6 +482,11 @@ func (u UnicodeRanges) Equal(other UnicodeRanges) bool {
 			return false
 		}
 	}
+	for _, rng := range other {
+		if !u.Contain(rng) {
+			return false
+		}
+	}
 	return true
 }
 
@@ -627,6 +674,22 @@ func StringLitToTokID(id *StringLit) *TokID {
 	}
 }
 
+// CharLitFromRune returns a dummy CharLiteral of r
+func CharLitFromRune(r rune) *CharLiteral {
+	lit := []rune{'\'', r, '\''}
+	switch r {
+	case '\'', '\\':
+		lit = []rune{'\'', '\\', r, '\''}
+	case '\n':
+		lit = []rune(`'\n'`)
+	case '\r':
+		lit = []rune(`'\r'`)
+	case '\t':
+		lit = []rune(`'\t'`)
+	}
+	return NewCharLiteral(nil, lit)
+}
+
 // CharLitFromStringLit returns a dummy CharLiteral with Literal sl.Literal[i]
 // If escaped sl.Literal[i] == '\\' and sl.Literal[i+1] is the escaped char.
 func CharLitFromStringLit(sl *StringLit, i int, escaped bool) *CharLiteral {
diff --git a/gen/golang/lexer/lexer.go b/gen/golang/lexer/lexer.go
index 038e9ce..4a16542 100644
--- a/gen/golang/lexer/lexer.go
+++ b/gen/golang/lexer/lexer.go
@@ -21,6 +21,7 @@ import (
 	"bytes"
 	"fmt"
 	"path/filepath"
+	"strings"
 	"text/template"
 
 	"github.com/goccmack/gogll/v3/ast"
@@ -102,6 +103,12 @@ func getTransition(t *items.Transition) *Transition {
 
 func getCondition(event ast.LexBase) string {
 	switch e := event.(type) {
+	case *ast.AllOf:
+		conds := make([]string, len(e.Symbols))
+		for i, sym := range e.Symbols {
+			conds[i] = getCondition(sym)
+		}
+		return strings.Join(conds, " && ")
 	case *ast.Any:
 		return "true"
 	case *ast.AnyOf:
diff --git a/gen/rust/lexer/lexer.go b/gen/rust/lexer/lexer.go
index 7c71543..65d24d7 100644
--- a/gen/rust/lexer/lexer.go
+++ b/gen/rust/lexer/lexer.go
@@ -20,6 +20,7 @@ package lexer
 import (
 	"bytes"
 	"fmt"
+	"strings"
 	"text/template"
 
 	"github.com/goccmack/gogll/v3/ast"
@@ -102,6 +103,12 @@ func getTransition(t *items.Transition) *Transition {
 
 func getCondition(event ast.LexBase) string {
 	switch e := event.(type) {
+	case *ast.AllOf:
+		conds := make([]string, len(e.Symbols))
+		for i, sym := range e.Symbols {
+			conds[i] = getCondition(sym)
+		}
+		return strings.Join(conds, " && ")
 	case *ast.Any:
 		return "true"
 	case *ast.AnyOf:
diff --git a/lex/items/event/event.go b/lex/items/event/event.go
index eefc68e..3796514 100644
--- a/lex/items/event/event.go
+++ b/lex/items/event/event.go
@@ -24,8 +24,6 @@ Package event implements the events that cause transitions between FSA states.
 package event
 
 import (
-	"fmt"
-	"os"
 	"sort"
 	"unicode"
 
@@ -34,313 +32,289 @@ import (
 	"github.com/goccmack/gogll/v3/util/runeset"
 )
 
-// TriState has range: {True, False, Undefined}
-type TriState int
+// Event is a set of runes that are in the same symbols.
+type Event struct {
+	// Symbol contains the runes of the event and no other runes, except
+	// those of the events before it.
+	Symbol ast.LexBase
 
-const (
-	// Undefined is a TriState value
-	Undefined TriState = iota
-	// False is a TriState value
-	False
-	// True is a TriState value
-	True
-)
+	// In holds the symbols which contain the runes of the event
+	In []ast.LexBase
 
-type eventPair struct {
-	a, b ast.LexBase
+	// key is unique for In
+	key string
 }
 
-// GetOrdered returns the set of unique transition events for items, ordered
-// by the event precedence.
-func GetOrdered(items ...*item.Item) (events []ast.LexBase) {
-	events = getEvents(items...)
-	incompatibleEvents := []eventPair{}
-	for i := 0; i < len(events)-1; i++ {
-		for j := i + 1; j < len(events); j++ {
-			if Subset(events[i], events[j]) == Undefined &&
-				Subset(events[j], events[i]) == Undefined {
-				incompatibleEvents = append(incompatibleEvents,
-					eventPair{events[i], events[j]})
-			}
-		}
-	}
-	if len(incompatibleEvents) > 0 {
-		fail(items, incompatibleEvents)
-	}
-	sortEvents(events)
-	return
+// Contains returns true iff the runes of the event are in sym
+func (e *Event) Contains(sym ast.LexBase) bool {
+	return contains(e.In, sym)
 }
 
-// Subset returns True if a is a subset of b, False if a is not a subset of b,
-// and Undefined if the subset relationship is not defined between a and b
-func Subset(a, b ast.LexBase) TriState {
-	switch a1 := a.(type) {
-	case *ast.Any:
-		_, ok := b.(*ast.Any)
-		return toTriState(ok)
+// GetOrdered returns the transition events for items, ordered by the event
+// precedence. The events are disjoint if a rune is taken to be in the first
+// event of which the symbol contains it.
+func GetOrdered(items ...*item.Item) (events []*Event) {
+	symbols := getSymbols(items...)
+	named := getNamedRunes(symbols)
+	events = append(events, getNamedEvents(symbols, named)...)
+	events = append(events, getClassEvents(symbols, named)...)
+	return
+}
 
-	case *ast.AnyOf:
-		switch b1 := b.(type) {
-		case *ast.Any:
-			return True
+// getNamedRunes returns the runes which occur in the char literals and the
+// sets of any and not.
+func getNamedRunes(symbols []ast.LexBase) *runeset.RuneSet {
+	named := runeset.New()
+	for _, sym := range symbols {
+		switch s := sym.(type) {
 		case *ast.AnyOf:
-			return toTriState(a1.Set.Subset(b1.Set))
+			addRunes(named, s.Set)
 		case *ast.CharLiteral:
-			return toTriState(a1.Set.Contains(b1.Char()))
+			named.Add(s.Char())
 		case *ast.Not:
-			return toTriState(!a1.Set.Subset(b1.Set))
-		case *ast.UnicodeClass:
-			return toTriState(unicodeClassContains(b1, a1.Set.Elements()...))
-		case *ast.UnicodeSet:
-			return toTriState(b1.ContainsRunes(a1.Set.Elements()...))
-		default:
-			panic("Invalid")
+			addRunes(named, s.Set)
 		}
+	}
+	return named
+}
 
-	case *ast.CharLiteral:
-		switch b1 := b.(type) {
-		case *ast.Any:
-			return True
-		case *ast.AnyOf:
-			return toTriState(b1.Set.Contains(a1.Char()))
-		case *ast.CharLiteral:
-			return toTriState(a1.Char() == b1.Char())
-		case *ast.Not:
-			return toTriState(!b1.Set.Contains(a1.Char()))
-		case *ast.UnicodeClass:
-			return toTriState(unicodeClassContains(b1, a1.Char()))
-		case *ast.UnicodeSet:
-			return toTriState(b1.ContainsRune(a1.Char()))
-		default:
-			panic("Invalid")
+// getNamedEvents returns the events of the named runes
+func getNamedEvents(symbols []ast.LexBase, named *runeset.RuneSet) (events []*Event) {
+	sets := make(map[string]*runeset.RuneSet)
+	for _, r := range named.Elements() {
+		if e := newEvent(r, symbols); len(e.In) > 0 {
+			if sets[e.key] == nil {
+				sets[e.key] = runeset.New()
+				events = append(events, e)
+			}
+			sets[e.key].Add(r)
 		}
+	}
+	for _, e := range events {
+		e.Symbol = getRuneSymbol(sets[e.key], symbols)
+	}
+	// Char literals first
+	sort.SliceStable(events, func(i, j int) bool {
+		_, iLit := events[i].Symbol.(*ast.CharLiteral)
+		_, jLit := events[j].Symbol.(*ast.CharLiteral)
+		return iLit && !jLit
+	})
+	return
+}
 
-	case *ast.Not:
-		switch b1 := b.(type) {
-		case *ast.Any:
-			return True
-		case *ast.AnyOf:
-			return Undefined
-		case *ast.CharLiteral:
-			return False
-		case *ast.Not:
-			return toTriState(b1.Set.Subset(a1.Set))
-		case *ast.UnicodeClass:
-			return Undefined
-		case *ast.UnicodeSet:
-			return Undefined
-		default:
-			panic("Invalid")
+// getClassEvents returns the events of all runes that are not named.
+func getClassEvents(symbols []ast.LexBase, named *runeset.RuneSet) (events []*Event) {
+	found := make(map[string]bool)
+	for _, r := range getSampleRunes(symbols, named) {
+		if e := newEvent(r, symbols); len(e.In) > 0 && !found[e.key] {
+			found[e.key] = true
+			events = append(events, e)
+		}
+	}
+	// An event with more symbols precedes those with some of its symbols.
+	sort.Slice(events, func(i, j int) bool {
+		if len(events[i].In) == len(events[j].In) {
+			return events[i].key > events[j].key
 		}
+		return len(events[i].In) > len(events[j].In)
+	})
+	for _, e := range events {
+		e.Symbol = getClassSymbol(e, events)
+	}
+	return
+}
 
-	case *ast.UnicodeClass:
-		switch b1 := b.(type) {
-		case *ast.Any:
-			return True
-		case *ast.AnyOf:
-			return Undefined
-		case *ast.CharLiteral:
-			return False
-		case *ast.Not:
-			return False
-		case *ast.UnicodeClass:
-			return toTriState(a1.Type == b1.Type ||
-				(b1.Type == ast.Letter && (a1.Type == ast.Lowcase || a1.Type == ast.Upcase)))
-		case *ast.UnicodeSet:
-			return toTriState(b1.ContainsClass(a1))
-		default:
-			panic("Invalid")
+// getClassSymbol returns a symbol that contains the runes of e, but none of the
+// runes of the events after e.
+func getClassSymbol(e *Event, events []*Event) ast.LexBase {
+	classes := []ast.LexBase{}
+	for _, sym := range e.In {
+		switch sym.(type) {
+		case *ast.UnicodeClass, *ast.UnicodeSet:
+			classes = append(classes, sym)
+		}
+	}
+	// Remove the classes that do not make a difference
+	for i := 0; i < len(classes) && len(classes) > 1; {
+		rest := append(append([]ast.LexBase{}, classes[:i]...), classes[i+1:]...)
+		implied := true
+		for _, e1 := range events {
+			if containsAll(e1.In, rest) && !e1.Contains(classes[i]) {
+				implied = false
+			}
+		}
+		if implied {
+			classes = rest
+		} else {
+			i++
 		}
+	}
+	switch len(classes) {
+	case 0:
+		// All runes that are not named are in every Any and Not
+		for _, sym := range e.In {
+			if not, ok := sym.(*ast.Not); ok {
+				return not
+			}
+		}
+		return e.In[0]
+	case 1:
+		return classes[0]
+	}
+	return &ast.AllOf{Symbols: classes}
+}
 
-	case *ast.UnicodeSet:
-		switch b1 := b.(type) {
-		case *ast.Any:
-			return True
+// getRuneSymbol returns the symbol with exactly the runes in set
+func getRuneSymbol(set *runeset.RuneSet, symbols []ast.LexBase) ast.LexBase {
+	runes := set.Elements()
+	for _, sym := range symbols {
+		switch s := sym.(type) {
 		case *ast.AnyOf:
-			return Undefined
+			if s.Set.Equal(set) {
+				return s
+			}
 		case *ast.CharLiteral:
-			return False
-		case *ast.Not:
-			return False
+			if len(runes) == 1 && s.Char() == runes[0] {
+				return s
+			}
+		}
+	}
+	if len(runes) == 1 {
+		return ast.CharLitFromRune(runes[0])
+	}
+	return &ast.AnyOf{Set: set}
+}
+
+// getSampleRunes returns runes that are not named. At least one of them is in
+// the same classes and unicode sets as any rune that is not named.
+func getSampleRunes(symbols []ast.LexBase, named *runeset.RuneSet) (runes []rune) {
+	samples := runeset.New()
+	add := func(r rune) {
+		for named.Contains(r) {
+			r++
+		}
+		if r <= unicode.MaxRune {
+			samples.Add(r)
+		}
+	}
+	add(0)
+	for _, r := range named.Elements() {
+		add(r + 1)
+	}
+	for _, sym := range symbols {
+		var tabs []*unicode.RangeTable
+		switch s := sym.(type) {
 		case *ast.UnicodeClass:
-			return toTriState(b1.ContainsSet(a1))
+			tabs = []*unicode.RangeTable{s.GetRangeTable()}
 		case *ast.UnicodeSet:
-			return toTriState(b1.ContainsSet(a1))
-		default:
-			panic("Invalid")
+			incl, excl := s.GetRangeTables()
+			tabs = append(incl, excl...)
+		}
+		for _, tab := range tabs {
+			for _, rng := range tab.R16 {
+				addRange(add, rune(rng.Lo), rune(rng.Hi), rune(rng.Stride))
+			}
+			for _, rng := range tab.R32 {
+				addRange(add, rune(rng.Lo), rune(rng.Hi), rune(rng.Stride))
+			}
 		}
-
-	default:
-		panic("Invalid")
 	}
+	return samples.Elements()
 }
 
-func anyOf(r rune, rs *runeset.RuneSet) bool {
-	return rs.Contains(r)
+func addRange(add func(rune), lo, hi, stride rune) {
+	if stride == 1 {
+		add(lo)
+		add(hi + 1)
+		return
+	}
+	for r := lo; r <= hi; r += stride {
+		add(r)
+		add(r + 1)
+	}
 }
 
-func contains(events []ast.LexBase, event ast.LexBase) bool {
-	for _, ev := range events {
-		if ev.Equal(event) {
-			return true
-		}
+func addRunes(to, from *runeset.RuneSet) {
+	for _, r := range from.Elements() {
+		to.Add(r)
 	}
-	return false
 }
 
-func getEvents(items ...*item.Item) (events []ast.LexBase) {
-	for _, item := range items {
-		event := item.Symbol()
-		if event != nil {
-			if !contains(events, event.(ast.LexBase)) {
-				events = append(events, event.(ast.LexBase))
-			}
+// newEvent returns the event of r
+func newEvent(r rune, symbols []ast.LexBase) *Event {
+	e, key := &Event{}, make([]byte, len(symbols))
+	for i, sym := range symbols {
+		key[i] = '0'
+		if symbolContains(sym, r) {
+			key[i] = '1'
+			e.In = append(e.In, sym)
 		}
 	}
-	return
+	e.key = string(key)
+	return e
 }
 
-func noneOf(r rune, rs *runeset.RuneSet) bool {
-	return !rs.Contains(r)
+func symbolContains(sym ast.LexBase, r rune) bool {
+	switch s := sym.(type) {
+	case *ast.Any:
+		return true
+	case *ast.AnyOf:
+		return s.Set.Contains(r)
+	case *ast.CharLiteral:
+		return s.Char() == r
+	case *ast.Not:
+		return !s.Set.Contains(r)
+	case *ast.UnicodeClass:
+		return unicodeClassContains(s, r)
+	case *ast.UnicodeSet:
+		return s.ContainsRune(r)
+	}
+	panic("Invalid")
 }
 
-// sort events from most to least specific class
-func sortEvents(events []ast.LexBase) {
-	sort.Slice(events, func(i, j int) bool {
-		switch e1 := events[i].(type) {
-		case *ast.Any:
-			return false
-		case *ast.AnyOf:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return e1.Set.Subset(e2.Set)
-			case *ast.CharLiteral:
-				return e1.Set.Contains(e2.Char())
-			case *ast.Not:
-				return e1.Set.Subset(e2.Set)
-			case *ast.UnicodeClass:
-				return unicodeClassContains(e2, e1.Set.Elements()...)
-			case *ast.UnicodeSet:
-				return e2.ContainsRunes(e1.Set.Elements()...)
-			default:
-				panic("Invalid")
-			}
-		case *ast.CharLiteral:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return true
-			case *ast.CharLiteral:
-				return e1.Char() < e2.Char()
-			case *ast.Not:
-				return true
-			case *ast.UnicodeClass:
-				return true
-			case *ast.UnicodeSet:
-				return true
-			default:
-				panic("Invalid")
-			}
-		case *ast.Not:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return false
-			case *ast.CharLiteral:
-				return false
-			case *ast.Not:
-				return e1.Set.Subset(e2.Set)
-			case *ast.UnicodeClass:
-				return false
-			case *ast.UnicodeSet:
-				return false
-			default:
-				panic("Invalid")
-			}
-		case *ast.UnicodeClass:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return false
-			case *ast.CharLiteral:
-				return false
-			case *ast.Not:
-				return !unicodeClassContains(e1, e2.Set.Elements()...)
-			case *ast.UnicodeClass:
-				return e2.Type == ast.Letter && (e1.Type == ast.Lowcase || e1.Type == ast.Upcase)
-			case *ast.UnicodeSet:
-				return e2.ContainsClass(e1)
-			default:
-				panic("Invalid")
-			}
-		case *ast.UnicodeSet:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return false
-			case *ast.CharLiteral:
-				return false
-			case *ast.Not:
-				return !e1.ContainsRunes(e2.Set.Elements()...)
-			case *ast.UnicodeClass:
-				return e2.ContainsSet(e1)
-			case *ast.UnicodeSet:
-				return e2.ContainsSet(e1)
-			default:
-				panic("Invalid")
-			}
-		default:
-			panic("Invalid")
+func contains(symbols []ast.LexBase, symbol ast.LexBase) bool {
+	for _, sym := range symbols {
+		if sym.Equal(symbol) {
+			return true
 		}
-	})
-}
-
-func toTriState(b bool) TriState {
-	if b {
-		return True
 	}
-	return False
+	return false
 }
 
-func unicodeClassContains(c *ast.UnicodeClass, rs ...rune) bool {
-	for _, r := range rs {
-		ok := false
-		switch c.Type {
-		case ast.Letter:
-			ok = unicode.IsLetter(r)
-		case ast.Upcase:
-			ok = unicode.IsUpper(r)
-		case ast.Lowcase:
-			ok = unicode.IsLower(r)
-		case ast.Number:
-			ok = unicode.IsNumber(r)
-		case ast.Space:
-			ok = unicode.IsSpace(r)
-		default:
-			panic("Invalid")
-		}
-		if !ok {
+func containsAll(symbols, some []ast.LexBase) bool {
+	for _, sym := range some {
+		if !contains(symbols, sym) {
 			return false
 		}
 	}
 	return true
 }
 
-func fail(items []*item.Item, incomatibleEvents []eventPair) {
-	fmt.Println("Error in lexer events")
-	fmt.Println("  Set:")
+// getSymbols returns the unique symbols of items
+func getSymbols(items ...*item.Item) (symbols []ast.LexBase) {
 	for _, item := range items {
-		fmt.Println("    ", item)
+		symbol := item.Symbol()
+		if symbol != nil {
+			if !contains(symbols, symbol.(ast.LexBase)) {
+				symbols = append(symbols, symbol.(ast.LexBase))
+			}
+		}
 	}
-	fmt.Println("  Incompatible events:")
-	for _, ee := range incomatibleEvents {
-		fmt.Println("    ", ee.a, " ", ee.b)
+	return
+}
+
+func unicodeClassContains(c *ast.UnicodeClass, r rune) bool {
+	switch c.Type {
+	case ast.Letter:
+		return unicode.IsLetter(r)
+	case ast.Upcase:
+		return unicode.IsUpper(r)
+	case ast.Lowcase:
+		return unicode.IsLower(r)
+	case ast.Number:
+		return unicode.IsNumber(r)
+	case ast.Space:
+		return unicode.IsSpace(r)
 	}
-	os.Exit(1)
+	panic("Invalid")
 }
diff --git a/lex/items/items.go b/lex/items/items.go
index 8b6add6..a7baf63 100644
--- a/lex/items/items.go
+++ b/lex/items/items.go
@@ -176,14 +176,14 @@ func (set *Set) nextSets() (sets []*Set) {
 		newSet := &Set{}
 		for _, item := range set.set {
 			if sym := item.Symbol(); sym != nil {
-				if event.Subset(ev, sym.(ast.LexBase)) == event.True {
+				if ev.Contains(sym.(ast.LexBase)) {
 					newSet.Add(item.Next().Emoves()...)
 				}
 			}
 		}
 		set.Transitions = append(set.Transitions,
 			&Transition{
-				Event: ev,
+				Event: ev.Symbol,
 				To:    newSet,
 			})
 		sets = append(sets, newSet)
-- 
2.43.0


From c3f7e8fb564616c6e3af9e73598b3ba48ac18254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:23 +0000
Subject: [PATCH 13/38] fix: accept the long names of Unicode categories beside
 other symbols

---
 ast/lex.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ast/lex.go b/ast/lex.go
index a2bb8a6..c85c103 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -551,10 +551,28 @@ func rangeTableInRangeTable(a, b *unicode.RangeTable) bool {
 	return true
 }
 
+// categoryLongNames has the categories which are not in unicode.Categories
+var categoryLongNames = map[string]*unicode.RangeTable{
+	"Digit":  unicode.Digit,
+	"Letter": unicode.Letter,
+	"Lower":  unicode.Lower,
+	"Mark":   unicode.Mark,
+	"Number": unicode.Number,
+	"Other":  unicode.Other,
+	"Punct":  unicode.Punct,
+	"Space":  unicode.Space,
+	"Symbol": unicode.Symbol,
+	"Title":  unicode.Title,
+	"Upper":  unicode.Upper,
+}
+
 // GetRangeTable returns the category or property RangeTable of r
 func (u *UnicodeRange) GetRangeTable() *unicode.RangeTable {
 	switch u.Type {
 	case UnicodeCategory:
+		if tab := categoryLongNames[u.Range]; tab != nil {
+			return tab
+		}
 		if unicode.Categories[u.Range] == nil {
 			panic(u.Range)
 		}
-- 
2.43.0


From e3f32acb1e832c5fd8f1cf34383d5152c5de7832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:17 +0000
Subject: [PATCH 14/38] fix: terminate on nested brackets that may be empty in
 lexical rules

---
 lex/item/item.go | 77 ++++++++++++++++++++++++++++--------------------
 1 file changed, 45 insertions(+), 32 deletions(-)

diff --git a/lex/item/item.go b/lex/item/item.go
index b18b9e3..46e7e77 100644
--- a/lex/item/item.go
+++ b/lex/item/item.go
@@ -100,44 +100,57 @@ func (i *Item) Clone() *Item {
 func (i *Item) Emoves() []*Item {
 	// fmt.Println("Emoves:", i)
 
-	after := []*Item{i}
-	for changed := true; changed; {
-		// fmt.Println(" Again")
-		before := after
-		after = []*Item{}
-		changed = false
-		for _, item := range before {
-			// fmt.Println("  ", item)
-
-			switch {
-			case item.atBeforeBracket():
-				for j := range item.Symbol().(*ast.LexBracket).Alternates {
-					item1 := &Item{
-						Rule: item.Rule,
-						Pos:  item.Pos.Clone().Push(j).Push(0),
-					}
-					after = append(after, item1)
-					switch item1.getCurrentBracket().Type {
-					case ast.LexOptional, ast.LexZeroOrMore:
-						after = append(after, item1.afterCurrentBracket())
-					}
-				}
-				changed = true
-			case item.atEndOfBracket():
-				switch item.getCurrentBracket().Type {
-				case ast.LexZeroOrMore, ast.LexOneOrMore:
-					after = append(after, item.beforeCurrentBracket())
-				}
-				after = append(after, item.afterCurrentBracket())
-				changed = true
-			default:
-				after = append(after, item)
+	after := []*Item{}
+	// nullable brackets may lead back to the same item
+	visited := []*Item{i}
+	for j := 0; j < len(visited); j++ {
+		moves := visited[j].emove()
+		if len(moves) == 0 {
+			after = append(after, visited[j])
+		}
+		for _, item := range moves {
+			if !item.in(visited) {
+				visited = append(visited, item)
 			}
 		}
 	}
 	return after
 }
 
+// emove returns the items reached by one empty move from i.
+func (i *Item) emove() (items []*Item) {
+	switch {
+	case i.atBeforeBracket():
+		for j := range i.Symbol().(*ast.LexBracket).Alternates {
+			item1 := &Item{
+				Rule: i.Rule,
+				Pos:  i.Pos.Clone().Push(j).Push(0),
+			}
+			items = append(items, item1)
+			switch item1.getCurrentBracket().Type {
+			case ast.LexOptional, ast.LexZeroOrMore:
+				items = append(items, item1.afterCurrentBracket())
+			}
+		}
+	case i.atEndOfBracket():
+		switch i.getCurrentBracket().Type {
+		case ast.LexZeroOrMore, ast.LexOneOrMore:
+			items = append(items, i.beforeCurrentBracket())
+		}
+		items = append(items, i.afterCurrentBracket())
+	}
+	return
+}
+
+func (i *Item) in(items []*Item) bool {
+	for _, item := range items {
+		if i.Equal(item) {
+			return true
+		}
+	}
+	return false
+}
+
 // Equal is true if i and other have the same rule and position.
 func (i *Item) Equal(other *Item) bool {
 	return i.Rule.ID() == other.Rule.ID() &&
-- 
2.43.0


From ca23587263cb2cda07ba09a006cd8912766b51f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:43 +0000
Subject: [PATCH 15/38] fix: copy the symbols of a token that is used in other
 tokens

---
 ast/build.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast/build.go b/ast/build.go
index 4395f06..bd4db6b 100644
--- a/ast/build.go
+++ b/ast/build.go
@@ -197,7 +197,8 @@ func (bld *builder) getLexRuleBody(tokid *token.Token) []LexSymbol {
 	if lexRule == nil {
 		bld.fail(fmt.Errorf("token %s not defined yet", tokid.LiteralString()), tokid.Lext())
 	}
-	return lexRule.RegExp.Symbols
+	// The caller appends to the symbols
+	return append([]LexSymbol{}, lexRule.RegExp.Symbols...)
 }
 
 // LexSymbol
-- 
2.43.0


From cd441eeb2e02303e5b9c6c3f47e602f51ade5bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:13 +0000
Subject: [PATCH 16/38] fix: LiteralStripEscape: \n is a new line; a backslash
 may be last

---
 gen/golang/token/token.go | 4 ++--
 token/token.go            | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gen/golang/token/token.go b/gen/golang/token/token.go
index 473db7e..013c87e 100644
--- a/gen/golang/token/token.go
+++ b/gen/golang/token/token.go
@@ -148,7 +148,7 @@ func (t *Token) LiteralStripEscape() []rune {
 	lit := t.Literal()
 	strip := make([]rune, 0, len(lit))
 	for i := 0; i < len(lit); i++ {
-		if lit[i] == '\\' {
+		if lit[i] == '\\' && i+1 < len(lit) {
 			i++
 			switch lit[i] {
 			case 't':
@@ -156,7 +156,7 @@ func (t *Token) LiteralStripEscape() []rune {
 			case 'r':
 				strip = append(strip, '\r')
 			case 'n':
-				strip = append(strip, '\r')
+				strip = append(strip, '\n')
 			default:
 				strip = append(strip, lit[i])
 			}
diff --git a/token/token.go b/token/token.go
index f20e796..2445015 100755
--- a/token/token.go
+++ b/token/token.go
@@ -69,7 +69,7 @@ func (t *Token) LiteralStripEscape() []rune {
 	lit := t.Literal()
 	strip := make([]rune, 0, len(lit))
 	for i := 0; i < len(lit); i++ {
-		if lit[i] == '\\' {
+		if lit[i] == '\\' && i+1 < len(lit) {
 			i++
 			switch lit[i] {
 			case 't':
@@ -77,7 +77,7 @@ func (t *Token) LiteralStripEscape() []rune {
 			case 'r':
 				strip = append(strip, '\r')
 			case 'n':
-				strip = append(strip, '\r')
+				strip = append(strip, '\n')
 			default:
 				strip = append(strip, lit[i])
 			}
-- 
2.43.0


From ec31429eb4e6e11b9df006cacf43b62434aafd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:19 +0000
Subject: [PATCH 17/38] fix: NewFile: a code block may end or begin right
 behind another fence

---
 gen/golang/lexer/lexer.go | 1 +
 lexer/lexer.go            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gen/golang/lexer/lexer.go b/gen/golang/lexer/lexer.go
index 4a16542..02541bf 100644
--- a/gen/golang/lexer/lexer.go
+++ b/gen/golang/lexer/lexer.go
@@ -318,6 +318,7 @@ func loadMd(input []rune) {
 				input[i+j] = ' '
 			}
 			i += 3
+			continue
 		}
 		if i < len(input) {
 			if text {
diff --git a/lexer/lexer.go b/lexer/lexer.go
index 5bb0edd..1618afe 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -146,6 +146,7 @@ func loadMd(input []rune) {
 				input[i+j] = ' '
 			}
 			i += 3
+			continue
 		}
 		if i < len(input) {
 			if text {
-- 
2.43.0


From 38fdc5c013af6ade76304e86f3a31734696a378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:59 +0000
Subject: [PATCH 18/38] fix: give string literals IDs that no other symbol has

---
 ast/ast.go                | 10 +++++++---
 ast/build.go              | 33 +++++++++++++++++++++++++++++++++
 ast/lex.go                |  8 ++++++--
 frstflw/frstflw.go        |  3 ++-
 gen/golang/gll/codex.go   |  6 +++---
 gen/golang/token/token.go |  2 +-
 lex/items/items.go        |  7 ++++---
 lr1/first/first.go        | 13 +++++++------
 symbols/symbols.go        | 16 +++++++++++++---
 9 files changed, 76 insertions(+), 22 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 0368357..6b27a53 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -43,6 +43,7 @@ type Package struct {
 
 type TokID struct {
 	tok *token.Token
+	id  string // The ID if it differs from the literal of tok
 }
 
 type Terminal interface {
@@ -65,17 +66,17 @@ func (g *GoGLL) GetLexRule(id string) *LexRule {
 	return nil
 }
 
-// GetStringLiterals returns a sorted slice of the string literals
+// GetStringLiterals returns a sorted slice of the IDs of the string literals
 func (g *GoGLL) GetStringLiterals() []string {
 	slits := make([]string, 0, len(g.StringLiterals))
 	for _, sl := range g.StringLiterals {
-		slits = append(slits, string(sl.Value()))
+		slits = append(slits, sl.ID())
 	}
 	sort.Slice(slits, func(i, j int) bool { return slits[i] < slits[j] })
 	return slits
 }
 
-// GetStringLiteralsSet returns a stringset containing the string literals
+// GetStringLiteralsSet returns a stringset containing the IDs of the string literals
 func (g *GoGLL) GetStringLiteralsSet() *stringset.StringSet {
 	return stringset.New(g.GetStringLiterals()...)
 }
@@ -131,5 +132,8 @@ func (t *TokID) Lext() int {
 }
 
 func (t *TokID) ID() string {
+	if t.id != "" {
+		return t.id
+	}
 	return t.tok.LiteralStringStripEscape()
 }
diff --git a/ast/build.go b/ast/build.go
index bd4db6b..a3f7744 100644
--- a/ast/build.go
+++ b/ast/build.go
@@ -37,6 +37,9 @@ type builder struct {
 	gogll        *GoGLL
 }
 
+// reservedIDs are the names of the symbols that gogll adds to those of the grammar
+var reservedIDs = []string{"Error", "$", "empty"}
+
 // builder rule
 type brule interface {
 	isBrule()
@@ -54,6 +57,7 @@ func Build(root bsr.BSR, l *lexer.Lexer, file string) *GoGLL {
 	}
 	bld.goGLL(root)
 	bld.gogll.NonTerminals = bld.nonTerminals()
+	bld.setStringLiteralIDs()
 	bld.gogll.StringLiterals = bld.getStringLiterals()
 	bld.gogll.Terminals = bld.terminals()
 	return bld.gogll
@@ -126,6 +130,35 @@ func (bld *builder) getLexRuleIDs(rules []*LexRule) *stringset.StringSet {
 	return terminals
 }
 
+// setStringLiteralIDs makes sure that the ID of a string literal is not the ID
+// of another symbol: the ID is the value of the literal, in quotes if the value
+// (without any quotes it has itself) is the name of another symbol.
+func (bld *builder) setStringLiteralIDs() {
+	names := stringset.New(reservedIDs...)
+	for _, r := range bld.gogll.SyntaxRules {
+		names.Add(r.ID())
+	}
+	for _, r := range bld.gogll.LexRules {
+		names.Add(r.ID())
+	}
+	for _, r := range bld.gogll.SyntaxRules {
+		for _, a := range r.Alternates {
+			for _, s := range a.Symbols {
+				if sl, ok := s.(*StringLit); ok {
+					sl.id = string(sl.Value())
+					name := sl.id
+					for len(name) >= 2 && name[0] == '"' && name[len(name)-1] == '"' {
+						name = name[1 : len(name)-1]
+					}
+					if names.Contain(name) {
+						sl.id = "\"" + sl.id + "\""
+					}
+				}
+			}
+		}
+	}
+}
+
 func (bld *builder) getStringLiterals() map[string]*StringLit {
 	slits := make(map[string]*StringLit)
 	for _, r := range bld.gogll.SyntaxRules {
diff --git a/ast/lex.go b/ast/lex.go
index c85c103..f522f8b 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -124,6 +124,7 @@ type RegExp struct {
 
 type StringLit struct {
 	tok *token.Token
+	id  string
 }
 
 type UnicodeClass struct {
@@ -394,8 +395,10 @@ func (sl *StringLit) ContainsWhiteSpace() bool {
 	return false
 }
 
+// ID returns the value of sl. It is enclosed in quotes if the value is also the
+// ID of another symbol.
 func (sl *StringLit) ID() string {
-	return string(sl.Value())
+	return sl.id
 }
 
 func (sl *StringLit) Literal() []rune {
@@ -687,8 +690,9 @@ func (u *UnicodeSet) Subset(sup *UnicodeSet) bool {
 // StringLitToTokID returns a dummy TokID with ID = id
 func StringLitToTokID(id *StringLit) *TokID {
 	return &TokID{
-		token.New(token.StringToType["tokid"],
+		tok: token.New(token.StringToType["tokid"],
 			id.tok.Lext()+1, id.tok.Rext()-1, id.tok.GetInput()),
+		id: id.ID(),
 	}
 }
 
diff --git a/frstflw/frstflw.go b/frstflw/frstflw.go
index d858475..8de136e 100644
--- a/frstflw/frstflw.go
+++ b/frstflw/frstflw.go
@@ -20,7 +20,8 @@ import (
 	"github.com/goccmack/goutil/stringslice"
 )
 
-const Empty = "ϵ"
+// Empty is a reserved word of gogll, which cannot be a symbol of the grammar
+const Empty = "empty"
 
 type FF struct {
 	// Key=symbol, Value is first set of symbol
diff --git a/gen/golang/gll/codex.go b/gen/golang/gll/codex.go
index 491a554..7a39660 100644
--- a/gen/golang/gll/codex.go
+++ b/gen/golang/gll/codex.go
@@ -74,12 +74,12 @@ func (g *gen) getAltData(nt string, alt *ast.SyntaxAlternate, altI int) *AltData
 func (g *gen) getSlotsData(nt string, alt *ast.SyntaxAlternate, altI int) (data []*SlotData) {
 	for i, sym := range alt.Symbols {
 		// fmt.Printf("getSlotsData(%s) %s\n", nt, getSlotData(nt, altI, sym, i))
-		data = append(data, g.getSlotData(nt, altI, sym.String(), i))
+		data = append(data, g.getSlotData(nt, altI, sym, i))
 	}
 	return
 }
 
-func (g *gen) getSlotData(nt string, altI int, symbol string, pos int) *SlotData {
+func (g *gen) getSlotData(nt string, altI int, symbol ast.SyntaxSymbol, pos int) *SlotData {
 	preLabel := gslot.NewLabel(nt, altI, pos, g.gs, g.ff)
 	postLabel := gslot.NewLabel(nt, altI, pos+1, g.gs, g.ff)
 	sd := &SlotData{
@@ -89,7 +89,7 @@ func (g *gen) getSlotData(nt string, altI int, symbol string, pos int) *SlotData
 		Comment:   postLabel.String(),
 		Head:      nt,
 	}
-	sd.IsNT = g.g.NonTerminals.Contain(symbol)
+	_, sd.IsNT = symbol.(*ast.NT)
 	return sd
 }
 
diff --git a/gen/golang/token/token.go b/gen/golang/token/token.go
index 013c87e..2853c2f 100644
--- a/gen/golang/token/token.go
+++ b/gen/golang/token/token.go
@@ -66,7 +66,7 @@ func getTypes() (types []*TypeDef) {
 		types = append(types,
 			&TypeDef{
 				Name:     t.TypeString(),
-				Comment:  utils.Escape(t.Literal()),
+				Comment:  utils.Escape(t.ID()),
 				Suppress: t.Suppress(),
 			})
 	}
diff --git a/lex/items/items.go b/lex/items/items.go
index a7baf63..57c8fcc 100644
--- a/lex/items/items.go
+++ b/lex/items/items.go
@@ -33,6 +33,7 @@ import (
 	"github.com/goccmack/gogll/v3/ast"
 	"github.com/goccmack/gogll/v3/lex/item"
 	"github.com/goccmack/gogll/v3/lex/items/event"
+	"github.com/goccmack/gogll/v3/symbols"
 	"github.com/goccmack/goutil/stringset"
 )
 
@@ -97,7 +98,7 @@ func (set *Set) Accept(slits *stringset.StringSet) string {
 		return acceptItems[0].Rule.ID()
 	}
 
-	return "Error"
+	return symbols.ErrorLiteral
 }
 
 // slits is the set of string literals from the AST
@@ -218,8 +219,8 @@ func set0(g *ast.GoGLL) *Set {
 	for _, rule := range g.LexRules {
 		s0.add(item.New(rule).Emoves()...)
 	}
-	for _, sl := range g.StringLiterals {
-		s0.add(item.New(stringLitToRule(sl)))
+	for _, id := range g.GetStringLiterals() {
+		s0.add(item.New(stringLitToRule(g.StringLiterals[id])))
 	}
 	return s0
 }
diff --git a/lr1/first/first.go b/lr1/first/first.go
index 9235402..53f2725 100644
--- a/lr1/first/first.go
+++ b/lr1/first/first.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 
 	"github.com/goccmack/gogll/v3/ast"
+	"github.com/goccmack/gogll/v3/frstflw"
 	"github.com/goccmack/gogll/v3/lr1/basicprod"
 	"github.com/goccmack/gogll/v3/symbols"
 )
@@ -66,24 +67,24 @@ func (this *First) firstTerms(alt *ast.SyntaxAlternate) (first FirstSet) {
 			first, _ = first.Add(term.ID())
 			return
 		case *ast.NT:
-			if f := this.symbol[term.ID()]; !f.Contain("ℇ") {
+			if f := this.symbol[term.ID()]; !f.Contain(frstflw.Empty) {
 				first, _ = first.Add(f...)
 				return
 			} else {
 				for _, sym := range f {
-					if sym != "ℇ" {
+					if sym != frstflw.Empty {
 						first, _ = first.Add(sym)
 					}
 				}
 			}
 		case *ast.StringLit:
-			first, _ = first.Add(string(term.Value()))
+			first, _ = first.Add(term.ID())
 			return
 		default:
 			panic("Invalid")
 		}
 	}
-	first, _ = first.Add("ℇ")
+	first, _ = first.Add(frstflw.Empty)
 	return
 }
 
@@ -94,9 +95,9 @@ func (this *First) FirstString(s []string, context ...string) (fs FirstSet) {
 	}
 	frst := make(FirstSet, 0, 4)
 	deriveEmpty := true
-	for i := 0; deriveEmpty && i < len(s); deriveEmpty, i = frst.Contain("ℇ"), i+1 {
+	for i := 0; deriveEmpty && i < len(s); deriveEmpty, i = frst.Contain(frstflw.Empty), i+1 {
 		frst = this.FirstSymbol(s[i])
-		fs, _ = fs.Add(frst.Min("ℇ")...)
+		fs, _ = fs.Add(frst.Min(frstflw.Empty)...)
 	}
 	if deriveEmpty {
 		fs, _ = fs.Add(context...)
diff --git a/symbols/symbols.go b/symbols/symbols.go
index 7354320..eace545 100644
--- a/symbols/symbols.go
+++ b/symbols/symbols.go
@@ -57,6 +57,10 @@ const (
 	StartOfTokens // First user defined token
 )
 
+// ErrorLiteral is the literal of Error. It contains a space, so that no other
+// symbol can have this literal.
+const ErrorLiteral = "Error token"
+
 // $ is the EOF symbol
 // type EoF string
 
@@ -97,15 +101,15 @@ func Init(g *ast.GoGLL) {
 	tSuppress = make([]bool, len(ts)+2)
 	tToID = make([]string, len(ts)+2)
 
-	tToLiteral[0] = "Error"
-	literalToT["Error"] = T(0)
+	tToLiteral[0] = ErrorLiteral
+	literalToT[ErrorLiteral] = T(0)
 	tToTypeString[0] = "Error"
 	tToLiteral[1] = "$"
 	literalToT["$"] = T(1)
 	tToTypeString[1] = "EOF"
 
 	tToID[Error] = "Error"
-	tToID[EoF] = "EOF"
+	tToID[EoF] = "$"
 
 	for i, t := range ts {
 		typeStr := fmt.Sprintf("T_%d", i)
@@ -114,6 +118,11 @@ func Init(g *ast.GoGLL) {
 		literalToT[t] = T(i + 2)
 		tToTypeString[i+2] = typeStr
 		tToID[i+2] = t
+		if sl, exist := g.StringLiterals[t]; exist {
+			if id := string(sl.Value()); id != "Error" && id != "$" && g.GetLexRule(id) == nil {
+				tToID[i+2] = id
+			}
+		}
 	}
 
 	for _, lr := range g.LexRules {
@@ -208,6 +217,7 @@ func (t T) GoString() string {
 	return tToTypeString[t]
 }
 
+// ID returns the ID of t in the generated token package
 func (t T) ID() string {
 	return tToID[t]
 }
-- 
2.43.0


From f3b513260dcb62c2b0e381247091511f498f31e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:03 +0000
Subject: [PATCH 19/38] fix: unique labels and AST functions if names of
 nonterminals end in digits, or one is G0

---
 gen/golang/lr1/ast/ast.go                 |  2 +-
 gen/golang/lr1/parser/productionstable.go |  5 ++---
 gslot/gslot.go                            | 10 ++++++++-
 lr1/basicprod/basicprod.go                | 27 ++++++++++++++++++++++-
 4 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/gen/golang/lr1/ast/ast.go b/gen/golang/lr1/ast/ast.go
index 069846a..5791cf4 100644
--- a/gen/golang/lr1/ast/ast.go
+++ b/gen/golang/lr1/ast/ast.go
@@ -89,7 +89,7 @@ func getBasicProd(prod *basicprod.Production) *BasicProd {
 			prod.Head,
 			strings.Join(prod.Body.GetSymbols(), " ")),
 
-		ID: fmt.Sprintf("%s%d", prod.Head, prod.Alternate),
+		ID: prod.ID,
 
 		Params: getParams(prod.Body),
 
diff --git a/gen/golang/lr1/parser/productionstable.go b/gen/golang/lr1/parser/productionstable.go
index 344b644..b1440cc 100644
--- a/gen/golang/lr1/parser/productionstable.go
+++ b/gen/golang/lr1/parser/productionstable.go
@@ -51,9 +51,8 @@ func getProdsTab(pkg string, prods []*basicprod.Production, states *states.State
 		data.ProdTab[i].Id = prod.Head
 		data.ProdTab[i].NTType = int(symbols.GetNTType(prod.Head))
 		data.ProdTab[i].NumSymbols = len(prod.Body.Symbols)
-		data.ProdTab[i].ReduceFunc = fmt.Sprintf("%s%d(%s)",
-			prod.Head,
-			prod.Alternate,
+		data.ProdTab[i].ReduceFunc = fmt.Sprintf("%s(%s)",
+			prod.ID,
 			getParamIDs(len(prod.Body.Symbols)))
 	}
 
diff --git a/gslot/gslot.go b/gslot/gslot.go
index 68fb416..9547c7a 100644
--- a/gslot/gslot.go
+++ b/gslot/gslot.go
@@ -19,6 +19,8 @@ import (
 	"bytes"
 	"fmt"
 	"sort"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/goccmack/gogll/v3/ast"
 	"github.com/goccmack/gogll/v3/frstflw"
@@ -70,8 +72,14 @@ func (gs *GSlot) Slots() Slots {
 	return res
 }
 
+// Label returns the Go identifier of s. Heads that end in a digit are separated
+// from the number of the alternate: S1, alternate 0 is not S, alternate 10.
 func (s Label) Label() string {
-	return fmt.Sprintf("%s%dR%d", s.Head, s.Alternate, s.Pos)
+	head := s.Head
+	if r, _ := utf8.DecodeLastRuneInString(head); !unicode.IsLetter(r) {
+		head += "_"
+	}
+	return fmt.Sprintf("%s%dR%d", head, s.Alternate, s.Pos)
 }
 
 func (s Label) IsEoR() bool {
diff --git a/lr1/basicprod/basicprod.go b/lr1/basicprod/basicprod.go
index 2c65e85..5744300 100644
--- a/lr1/basicprod/basicprod.go
+++ b/lr1/basicprod/basicprod.go
@@ -8,15 +8,21 @@ import (
 )
 
 type Production struct {
+	// ID is the unique name of the AST function of the production
+	ID        string
 	Alternate int
 	Head      string
 	Body      *ast.SyntaxAlternate
 }
 
 func Get(rules []*ast.SyntaxRule) (prods []*Production) {
+	start := "G0"
+	for exist(start, rules) {
+		start += "_"
+	}
 	prods = append(prods,
 		&Production{
-			Head: "G0",
+			Head: start,
 			Body: &ast.SyntaxAlternate{
 				Symbols: []ast.SyntaxSymbol{rules[0].Head},
 			},
@@ -31,9 +37,28 @@ func Get(rules []*ast.SyntaxRule) (prods []*Production) {
 				})
 		}
 	}
+	// S1, alternate 0 and S, alternate 10 must have different IDs
+	ids := make(map[string]bool)
+	for _, p := range prods {
+		p.ID = fmt.Sprintf("%s%d", p.Head, p.Alternate)
+		for ids[p.ID] {
+			p.ID += "_"
+		}
+		ids[p.ID] = true
+	}
 	return prods
 }
 
+// exist returns true iff nt is the head of a rule
+func exist(nt string, rules []*ast.SyntaxRule) bool {
+	for _, r := range rules {
+		if r.ID() == nt {
+			return true
+		}
+	}
+	return false
+}
+
 func (p *Production) String() string {
 	return fmt.Sprintf("%s : %s ;",
 		p.Head,
-- 
2.43.0


From 2baae2efe7c9556f31de3961e54f4dbdadcc5580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:16 +0000
Subject: [PATCH 20/38] fix: escape unprintable characters and comments in
 generated code

---
 gen/golang/gll/codex.go                   |  5 +++--
 gen/golang/gll/testselect.go              |  2 +-
 gen/golang/lr1/ast/ast.go                 |  6 ++----
 gen/golang/lr1/parser/actionrow.go        |  8 +++++---
 gen/golang/lr1/parser/productionstable.go |  3 ++-
 gen/golang/utils/utils.go                 | 21 ++++++---------------
 6 files changed, 19 insertions(+), 26 deletions(-)

diff --git a/gen/golang/gll/codex.go b/gen/golang/gll/codex.go
index 7a39660..62ee7db 100644
--- a/gen/golang/gll/codex.go
+++ b/gen/golang/gll/codex.go
@@ -19,6 +19,7 @@ import (
 	"text/template"
 
 	"github.com/goccmack/gogll/v3/ast"
+	"github.com/goccmack/gogll/v3/gen/golang/utils"
 	"github.com/goccmack/gogll/v3/gslot"
 )
 
@@ -61,7 +62,7 @@ func (g *gen) getAltData(nt string, alt *ast.SyntaxAlternate, altI int) *AltData
 	d := &AltData{
 		NT:         nt,
 		AltLabel:   L.Label(),
-		AltComment: L.String(),
+		AltComment: utils.Escape(L.String()),
 		Empty:      alt.Empty(),
 	}
 	if !alt.Empty() {
@@ -86,7 +87,7 @@ func (g *gen) getSlotData(nt string, altI int, symbol ast.SyntaxSymbol, pos int)
 		AltLabel:  gslot.NewLabel(nt, altI, 0, g.gs, g.ff).Label(),
 		PreLabel:  preLabel.Label(),
 		PostLabel: postLabel.Label(),
-		Comment:   postLabel.String(),
+		Comment:   utils.Escape(postLabel.String()),
 		Head:      nt,
 	}
 	_, sd.IsNT = symbol.(*ast.NT)
diff --git a/gen/golang/gll/testselect.go b/gen/golang/gll/testselect.go
index 7ff36c8..09404ca 100644
--- a/gen/golang/gll/testselect.go
+++ b/gen/golang/gll/testselect.go
@@ -94,7 +94,7 @@ func (g *gen) getTSData() (data []*TSData) {
 
 func (g *gen) getSlotTSData(l gslot.Label) *TSData {
 	data := &TSData{
-		Label:   l.String(),
+		Label:   utils.Escape(l.String()),
 		Symbols: g.getFirst(l),
 		// Conditions: g.getSlotTSConditions(s),
 	}
diff --git a/gen/golang/lr1/ast/ast.go b/gen/golang/lr1/ast/ast.go
index 5791cf4..b8407b4 100644
--- a/gen/golang/lr1/ast/ast.go
+++ b/gen/golang/lr1/ast/ast.go
@@ -19,13 +19,13 @@ import (
 	"bytes"
 	"fmt"
 	"path/filepath"
-	"strings"
 	"text/template"
 
 	"github.com/iancoleman/strcase"
 
 	"github.com/goccmack/gogll/v3/ast"
 	"github.com/goccmack/gogll/v3/cfg"
+	"github.com/goccmack/gogll/v3/gen/golang/utils"
 	"github.com/goccmack/gogll/v3/lr1/basicprod"
 	"github.com/goccmack/goutil/ioutil"
 )
@@ -85,9 +85,7 @@ func getBasicProds(bprods []*basicprod.Production) (prods []*BasicProd) {
 
 func getBasicProd(prod *basicprod.Production) *BasicProd {
 	return &BasicProd{
-		Comment: fmt.Sprintf("%s : %s ;",
-			prod.Head,
-			strings.Join(prod.Body.GetSymbols(), " ")),
+		Comment: utils.Escape(prod.String()),
 
 		ID: prod.ID,
 
diff --git a/gen/golang/lr1/parser/actionrow.go b/gen/golang/lr1/parser/actionrow.go
index f320ecc..952237c 100644
--- a/gen/golang/lr1/parser/actionrow.go
+++ b/gen/golang/lr1/parser/actionrow.go
@@ -19,6 +19,7 @@ import (
 	"fmt"
 	"text/template"
 
+	"github.com/goccmack/gogll/v3/gen/golang/utils"
 	"github.com/goccmack/gogll/v3/lr1/action"
 	"github.com/goccmack/gogll/v3/lr1/basicprod"
 	"github.com/goccmack/gogll/v3/lr1/states"
@@ -53,13 +54,14 @@ func getActionRowData(prods []*basicprod.Production, state *states.State, action
 	for _, sym := range symbols.GetTerminals() {
 		if actions[sym.Literal()] != nil {
 			var actStr string
+			comment := utils.Escape(sym.String())
 			switch act := actions[sym.Literal()].(type) {
 			case action.Accept:
-				actStr = fmt.Sprintf("accept(true),\t\t/* %s */", sym)
+				actStr = fmt.Sprintf("accept(true),\t\t// %s", comment)
 			case action.Reduce:
-				actStr = fmt.Sprintf("reduce(%d),\t\t/* %s, reduce: %s */", int(act), sym, prods[int(act)].Head)
+				actStr = fmt.Sprintf("reduce(%d),\t\t// %s, reduce: %s", int(act), comment, prods[int(act)].Head)
 			case action.Shift:
-				actStr = fmt.Sprintf("shift(%d),\t\t/* %s */", int(act), sym)
+				actStr = fmt.Sprintf("shift(%d),\t\t// %s", int(act), comment)
 			default:
 				panic(fmt.Sprintf("Unknown action type: %T", act))
 			}
diff --git a/gen/golang/lr1/parser/productionstable.go b/gen/golang/lr1/parser/productionstable.go
index b1440cc..77e018e 100644
--- a/gen/golang/lr1/parser/productionstable.go
+++ b/gen/golang/lr1/parser/productionstable.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"fmt"
 	"path"
+	"strconv"
 	"strings"
 	"text/template"
 
@@ -47,7 +48,7 @@ func getProdsTab(pkg string, prods []*basicprod.Production, states *states.State
 		ProdTab: make([]prodTabEntry, len(prods)),
 	}
 	for i, prod := range prods {
-		data.ProdTab[i].String = fmt.Sprintf("`%s`", prod.String())
+		data.ProdTab[i].String = strconv.Quote(prod.String())
 		data.ProdTab[i].Id = prod.Head
 		data.ProdTab[i].NTType = int(symbols.GetNTType(prod.Head))
 		data.ProdTab[i].NumSymbols = len(prod.Body.Symbols)
diff --git a/gen/golang/utils/utils.go b/gen/golang/utils/utils.go
index 0885381..73d98eb 100644
--- a/gen/golang/utils/utils.go
+++ b/gen/golang/utils/utils.go
@@ -1,6 +1,8 @@
 package utils
 
-// Escape returns a copy of s with all "\t\r\n\\ escaped
+import "strconv"
+
+// Escape returns a copy of s with all "\t\r\n\\ and unprintable characters escaped
 func Escape(s string) string {
 	rs := []rune(s)
 	ers := []rune{}
@@ -18,21 +20,10 @@ func EscapeAll(ss ...string) (ess []string) {
 	return
 }
 
-// EscapeRune returns r escaped if in set: "\t\r\n\\
+// EscapeRune returns r escaped if it is in the set: "\t\r\n\\ or is not printable
 func EscapeRune(r rune) string {
-	switch r {
-	case '"':
-		return "\\\""
-	case '\\':
-		return "\\\\"
-	case '\r':
-		return "\\r"
-	case '\n':
-		return "\\n"
-	case '\t':
-		return "\\t"
-	}
-	return string(r)
+	quoted := strconv.Quote(string(r))
+	return quoted[1 : len(quoted)-1]
 }
 
 // StripEscape returns a copy of s with string literal escape sequences replaced
-- 
2.43.0


From 8baacbac1f06bd0944652c335610b3a852dd5985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:17 +0000
Subject: [PATCH 21/38] fix: quote characters in the conditions of the
 generated lexer

---
 ast/lex.go                |  2 +-
 gen/golang/lexer/lexer.go |  7 ++-----
 util/runeset/runeset.go   | 19 ++-----------------
 3 files changed, 5 insertions(+), 23 deletions(-)

diff --git a/ast/lex.go b/ast/lex.go
index f522f8b..52c9437 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -232,7 +232,7 @@ func NewCharLiteral(tok *token.Token, literal []rune) *CharLiteral {
 }
 
 func (c *CharLiteral) Char() rune {
-	if c.Literal[1] == '\\' {
+	if c.Literal[1] == '\\' && len(c.Literal) > 3 {
 		switch c.Literal[2] {
 		case '\'':
 			return '\''
diff --git a/gen/golang/lexer/lexer.go b/gen/golang/lexer/lexer.go
index 02541bf..7b068af 100644
--- a/gen/golang/lexer/lexer.go
+++ b/gen/golang/lexer/lexer.go
@@ -21,6 +21,7 @@ import (
 	"bytes"
 	"fmt"
 	"path/filepath"
+	"strconv"
 	"strings"
 	"text/template"
 
@@ -114,11 +115,7 @@ func getCondition(event ast.LexBase) string {
 	case *ast.AnyOf:
 		return fmt.Sprintf("any(r, %s)", e.Set)
 	case *ast.CharLiteral:
-		cstr := string(e.Literal)
-		if cstr == "'''" {
-			return "r == '\\''"
-		}
-		return fmt.Sprintf("r == %s", cstr)
+		return fmt.Sprintf("r == %s", strconv.QuoteRune(e.Char()))
 	case *ast.Not:
 		return fmt.Sprintf("not(r, %s)", e.Set)
 	case *ast.UnicodeClass:
diff --git a/util/runeset/runeset.go b/util/runeset/runeset.go
index 2716478..a70b0f3 100644
--- a/util/runeset/runeset.go
+++ b/util/runeset/runeset.go
@@ -21,6 +21,7 @@ import (
 	"bytes"
 	"fmt"
 	"sort"
+	"strconv"
 )
 
 // RuneSet holds a set of rune
@@ -103,24 +104,8 @@ func (rs *RuneSet) String() string {
 		if i > 0 {
 			fmt.Fprint(w, ",")
 		}
-		fmt.Fprintf(w, "'%s'", escape(r))
+		fmt.Fprint(w, strconv.QuoteRune(r))
 	}
 	fmt.Fprint(w, "}")
 	return w.String()
 }
-
-func escape(r rune) string {
-	switch r {
-	case '\\':
-		return "\\\\"
-	case '\'':
-		return "\\'"
-	case '\r':
-		return "\\r"
-	case '\n':
-		return "\\n"
-	case '\t':
-		return "\\t"
-	}
-	return string(r)
-}
-- 
2.43.0


From 1441ab5c49ef719ae6bc545c3c07e2c08bf487b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:51 +0000
Subject: [PATCH 22/38] fix: UnicodeClass.Lext recursed without end

---
 ast/lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/lex.go b/ast/lex.go
index 52c9437..f9c3fdd 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -350,7 +350,7 @@ func (u *UnicodeClass) Equal(other LexBase) bool {
 }
 
 func (u *UnicodeClass) Lext() int {
-	return u.Lext()
+	return u.tok.Lext()
 }
 
 func (*Any) String() string {
-- 
2.43.0


From f69dfd4a23f1e11df16144919ada87946e016c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:51 +0000
Subject: [PATCH 23/38] fix: gogll took an unfinished escape sequence for a
 character literal

The lexer of gogll accepted '\n without the closing quote, which the
definition of char_lit in gogll.md does not allow, and read it as a
backslash. The transitions after '\ are now those that gogll generates
from gogll.md since overlapping sets of characters are kept apart.
---
 lexer/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 1618afe..62a2ce1 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -1282,10 +1282,10 @@ var nextState = []func(r rune) state{
 	// Set29
 	func(r rune) state {
 		switch { 
-		case any(r, []rune{'\'','\\','n','r','t'}):
-			return 44 
 		case r == '\'':
 			return 44 
+		case any(r, []rune{'\\','n','r','t'}):
+			return 30 
 		}
 		return nullState
 	}, 
-- 
2.43.0


From 025542755af015e942a1bd6c9237057c83849af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:51 +0000
Subject: [PATCH 24/38] fix: a failure to write the LR(1) parser went unnoticed

---
 gen/golang/lr1/parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gen/golang/lr1/parser/parser.go b/gen/golang/lr1/parser/parser.go
index d9b9ae8..43594a5 100644
--- a/gen/golang/lr1/parser/parser.go
+++ b/gen/golang/lr1/parser/parser.go
@@ -35,7 +35,9 @@ func genParser(pkg string, prods []*basicprod.Production, states *states.States)
 	if err := tmpl.Execute(wr, getParserData(pkg, prods, states)); err != nil {
 		panic(err)
 	}
-	ioutil.WriteFile(path.Join(cfg.BaseDir, "parser", "parser.go"), wr.Bytes())
+	if err := ioutil.WriteFile(path.Join(cfg.BaseDir, "parser", "parser.go"), wr.Bytes()); err != nil {
+		panic(err)
+	}
 }
 
 type parserData struct {
-- 
2.43.0


From fa8c3d0dd41dbade92dee821297bc5cde2566943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:51 +0000
Subject: [PATCH 25/38] fix: failures to write the LR(1) reports went unnoticed

---
 lr1/gen.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lr1/gen.go b/lr1/gen.go
index 092cd01..3e7544d 100644
--- a/lr1/gen.go
+++ b/lr1/gen.go
@@ -43,8 +43,8 @@ func Gen(g *ast.GoGLL) ([]*basicprod.Production, *states.States, action.Actions)
 	handleConflicts(conflicts, states)
 
 	if cfg.Verbose {
-		ioutil.WriteFile(path.Join(cfg.BaseDir, "CFG_items.txt"), []byte(items.String()))
-		ioutil.WriteFile(path.Join(cfg.BaseDir, "LR1_states.txt"), statesString(states, actions))
+		writeFile("CFG_items.txt", []byte(items.String()))
+		writeFile("LR1_states.txt", statesString(states, actions))
 	}
 
 	return prods, states, actions
@@ -82,7 +82,14 @@ func writeConflicts(conflicts [][]*action.Conflict) {
 			conflictNo++
 		}
 	}
-	ioutil.WriteFile(path.Join(cfg.BaseDir, "LR1_conflicts.txt"), w.Bytes())
+	writeFile("LR1_conflicts.txt", w.Bytes())
+}
+
+func writeFile(name string, data []byte) {
+	if err := ioutil.WriteFile(path.Join(cfg.BaseDir, name), data); err != nil {
+		fmt.Println(err)
+		os.Exit(1)
+	}
 }
 
 // func reduceLabel(state *states.State, actions map[string]action.Action, prods []*basicprod.Production) string {
-- 
2.43.0


From 9b3a751f87a52b544308db0a1a3a8468e58e14c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:09 +0000
Subject: [PATCH 26/38] fix: gogll panicked if it could not read the source
 file

---
 main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.go b/main.go
index 6b239f5..94c21a4 100644
--- a/main.go
+++ b/main.go
@@ -18,6 +18,7 @@ package main
 
 import (
 	"fmt"
+	"io/ioutil"
 	"os"
 	"path"
 	"path/filepath"
@@ -62,6 +63,9 @@ func main() {
 		}
 		defer pprof.StopCPUProfile()
 	}
+	if _, err := ioutil.ReadFile(cfg.SrcFile); err != nil {
+		fail(err)
+	}
 	lex := lexer.NewFile(cfg.SrcFile)
 	bsrSet, errs := parser.Parse(lex)
 	if errs != nil {
-- 
2.43.0


From bbf102295d6bb46ee050edb651168549774f0bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:10 +0000
Subject: [PATCH 27/38] fix: an ast.go left incomplete by a failure was kept by
 later runs

---
 gen/golang/lr1/ast/ast.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gen/golang/lr1/ast/ast.go b/gen/golang/lr1/ast/ast.go
index b8407b4..1f2b438 100644
--- a/gen/golang/lr1/ast/ast.go
+++ b/gen/golang/lr1/ast/ast.go
@@ -18,6 +18,7 @@ package ast
 import (
 	"bytes"
 	"fmt"
+	"os"
 	"path/filepath"
 	"text/template"
 
@@ -63,7 +64,11 @@ func Gen(pkg string, bprods []*basicprod.Production) {
 	if err := tmpl.Execute(buf, getData(pkg, bprods)); err != nil {
 		panic(err)
 	}
-	if err := ioutil.WriteFile(fname, buf.Bytes()); err != nil {
+	// An incomplete file must not be taken for a file of the user
+	if err := ioutil.WriteFile(fname+".new", buf.Bytes()); err != nil {
+		panic(err)
+	}
+	if err := os.Rename(fname+".new", fname); err != nil {
 		panic(err)
 	}
 }
-- 
2.43.0


From e94a8acddd032cf9efb8a9d9a58b042501f1c4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:45 +0000
Subject: [PATCH 28/38] fix: the order in symbols.txt and first_follow.txt
 differed from run to run

---
 ast/ast.go                     | 2 +-
 gen/firstfollow/firstfollow.go | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 6b27a53..62a7bb5 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -91,7 +91,7 @@ func (g *GoGLL) GetSyntaxRule(nt string) *SyntaxRule {
 }
 
 func (g *GoGLL) GetSymbols() []string {
-	return append(g.Terminals.Elements(), g.NonTerminals.Elements()...)
+	return append(g.Terminals.ElementsSorted(), g.NonTerminals.ElementsSorted()...)
 }
 
 func (g *GoGLL) StartSymbol() string {
diff --git a/gen/firstfollow/firstfollow.go b/gen/firstfollow/firstfollow.go
index 312bdf1..4fafd98 100644
--- a/gen/firstfollow/firstfollow.go
+++ b/gen/firstfollow/firstfollow.go
@@ -49,21 +49,21 @@ func genFirstSets(w io.Writer, g *ast.GoGLL, ff *frstflw.FF) {
 
 func genFirstSet(w io.Writer, symbol string, ff *frstflw.FF) {
 	fmt.Fprintf(w, "%s: ", symbol)
-	for _, s := range ff.FirstOfSymbol(symbol).Elements() {
+	for _, s := range ff.FirstOfSymbol(symbol).ElementsSorted() {
 		fmt.Fprintf(w, `%s `, s)
 	}
 	fmt.Fprintln(w)
 }
 
 func genFollowSets(w io.Writer, g *ast.GoGLL, ff *frstflw.FF) {
-	for _, s := range g.NonTerminals.Elements() {
+	for _, s := range g.NonTerminals.ElementsSorted() {
 		genFollowSet(w, s, ff)
 	}
 }
 
 func genFollowSet(w io.Writer, nt string, ff *frstflw.FF) {
 	fmt.Fprintf(w, "Follow(%s): ", nt)
-	for _, s := range ff.Follow(nt).Elements() {
+	for _, s := range ff.Follow(nt).ElementsSorted() {
 		fmt.Fprintf(w, `%s `, s)
 	}
 	fmt.Fprintln(w)
-- 
2.43.0


From 6775f0e7916983e474c610cf6ad52800ab54e70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:51 +0000
Subject: [PATCH 29/38] fix: parse errors listed the expected tokens in an
 order that differed from run to run

---
 gen/golang/gll/parser.go | 1 +
 parser/parser.go         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gen/golang/gll/parser.go b/gen/golang/gll/parser.go
index a1c1893..beb20cd 100644
--- a/gen/golang/gll/parser.go
+++ b/gen/golang/gll/parser.go
@@ -459,6 +459,7 @@ func (pe *Error) String() string {
 	for _, e := range pe.Expected {
 		exp = append(exp, e)
 	}
+	sort.Strings(exp)
 	fmt.Fprintf(w, "Expected one of: [%s]", strings.Join(exp, ","))
 	return w.String()
 }
diff --git a/parser/parser.go b/parser/parser.go
index 676f0f3..0e4d0ea 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -12183,6 +12183,7 @@ func (pe *Error) String() string {
 	for _, e := range pe.Expected {
 		exp = append(exp, e)
 	}
+	sort.Strings(exp)
 	fmt.Fprintf(w, "Expected one of: [%s]", strings.Join(exp, ","))
 	return w.String()
 }
-- 
2.43.0


From 4d972e0bdb0fb9ebfd724a4d8e768fc70b037273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 30/38] fix: the order of parse errors at a token differed from
 run to run

---
 gen/golang/gll/parser.go | 8 ++++----
 parser/parser.go         | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/gen/golang/gll/parser.go b/gen/golang/gll/parser.go
index beb20cd..e86f8f8 100644
--- a/gen/golang/gll/parser.go
+++ b/gen/golang/gll/parser.go
@@ -267,10 +267,10 @@ func (p *parser) call(L slot.Label, i, j int) {
 			// fmt.Printf("  !existEdge(%v)\n", u)
 			p.crf[ndV] = append(v, u)
 			// fmt.Printf("|popped|=%d\n", len(popped))
-			for pnd := range p.popped {
-				if pnd.X == X && pnd.k == j {
-					p.dscAdd(L, i, pnd.j)
-					p.bsrSet.Add(L, i, j, pnd.j)
+			for h := j; h < len(p.lex.Tokens); h++ {
+				if p.popped[poppedNode{X, j, h}] {
+					p.dscAdd(L, i, h)
+					p.bsrSet.Add(L, i, j, h)
 				}
 			}
 		}
diff --git a/parser/parser.go b/parser/parser.go
index 0e4d0ea..a894839 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1654,10 +1654,10 @@ func (p *parser) call(L slot.Label, i, j int) {
 			// fmt.Printf("  !existEdge(%v)\n", u)
 			p.crf[ndV] = append(v, u)
 			// fmt.Printf("|popped|=%d\n", len(popped))
-			for pnd := range p.popped {
-				if pnd.X == X && pnd.k == j {
-					p.dscAdd(L, i, pnd.j)
-					p.bsrSet.Add(L, i, j, pnd.j)
+			for h := j; h < len(p.lex.Tokens); h++ {
+				if p.popped[poppedNode{X, j, h}] {
+					p.dscAdd(L, i, h)
+					p.bsrSet.Add(L, i, j, h)
 				}
 			}
 		}
-- 
2.43.0


From cf160eb735b40a71de46da17004f8c4752335c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 31/38] fix: bsr: ReportAmbiguous did not end on cyclic forests
 and missed ambiguities below the root

---
 gen/golang/gll/bsr/bsr.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index 5ac3417..8132fd8 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -556,14 +556,19 @@ func (s *Set) ReportAmbiguous() {
     }
     for i, b := range s.GetRoots() {
         fmt.Println("In root", i)
-        if !s.report(b) {
+        if !s.report(b, map[BSR]bool{}) {
             fmt.Println("No ambiguous BSRs")
         }
     }
 }
 
-// report return true iff at least one ambigous BSR was found
-func (s *Set) report(b BSR) bool {
+// report return true iff at least one ambigous BSR was found.
+// BSRs in done are not reported again: subtrees are shared and can be cyclic.
+func (s *Set) report(b BSR, done map[BSR]bool) bool {
+    if done[b] {
+        return false
+    }
+    done[b] = true
     ambiguous := false
     for i, sym := range b.Label.Symbols() {
         ln, col := s.getLineColumn(b.LeftExtent())
@@ -578,7 +583,9 @@ func (s *Set) report(b BSR) bool {
                 }
             }
             for _, b1 := range b.GetNTChildrenI(i) {
-                s.report(b1)
+                if s.report(b1, done) {
+                    ambiguous = true
+                }
             }
         }
     }
-- 
2.43.0


From 8d642e6fe61bf8f1d0b5c4133b0a7a0dcf3e62ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 32/38] fix: bsr: Dump listed strings with the text of the
 token behind them

---
 gen/golang/gll/bsr/bsr.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index 8132fd8..0d00f5f 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -520,8 +520,12 @@ func (s stringBSR) Empty() bool {
 
 // String returns a string representation of s
 func (s stringBSR) String() string {
+    srcStr := "ℇ"
+    if s.leftExtent < s.rightExtent {
+        srcStr = s.set.lex.GetString(s.LeftExtent(), s.RightExtent()-1)
+    }
     return fmt.Sprintf("%s,%d,%d,%d - %s", &s.Symbols, s.leftExtent, s.pivot,
-        s.rightExtent, s.set.lex.GetString(s.LeftExtent(), s.RightExtent()))
+        s.rightExtent, srcStr)
 }
 
 func (s *Set) getNTSlot(sym symbols.Symbol, leftExtent, rightExtent int) (bsrs []BSR) {
-- 
2.43.0


From 86c2f204b91199c6ca5c77841ba14054c6bb6b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 33/38] fix: sppf: quote the labels of nodes: DotFile wrote a
 broken file if a literal had a quote or a backslash

---
 gen/golang/gll/sppf/sppf.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gen/golang/gll/sppf/sppf.go b/gen/golang/gll/sppf/sppf.go
index d443952..384d9dd 100644
--- a/gen/golang/gll/sppf/sppf.go
+++ b/gen/golang/gll/sppf/sppf.go
@@ -107,15 +107,15 @@ func slotString(nt symbols.NT, body symbols.Symbols, pos int) string {
 }
 
 func (n *IntermediateNode) Label() string {
-	return fmt.Sprintf("\"%s:,%d,%d\"", slotString(n.NT, n.Body, n.Pos), n.Lext, n.Rext)
+	return fmt.Sprintf("%q", fmt.Sprintf("%s:,%d,%d", slotString(n.NT, n.Body, n.Pos), n.Lext, n.Rext))
 }
 
 func (n *SymbolNode) Label() string {
-	return fmt.Sprintf("\"%s,%d,%d\"", n.Symbol, n.Lext, n.Rext)
+	return fmt.Sprintf("%q", fmt.Sprintf("%s,%d,%d", n.Symbol, n.Lext, n.Rext))
 }
 
 func (n *PackedNode) Label() string {
-	return fmt.Sprintf("\"%s,%d,%d,%d\"", slotString(n.NT, n.Body, n.Pos), n.Lext, n.Pivot, n.Rext)
+	return fmt.Sprintf("%q", fmt.Sprintf("%s,%d,%d,%d", slotString(n.NT, n.Body, n.Pos), n.Lext, n.Pivot, n.Rext))
 }
 
 func (n *IntermediateNode) String() string {
-- 
2.43.0


From 953bbb6c1b91874a560077a05e61cd023978db52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 34/38] fix: lr1: a parse error listed the expected tokens in
 the order of a map, which differs from run to run

---
 gen/golang/lr1/parser/parser.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/gen/golang/lr1/parser/parser.go b/gen/golang/lr1/parser/parser.go
index 43594a5..9b2720e 100644
--- a/gen/golang/lr1/parser/parser.go
+++ b/gen/golang/lr1/parser/parser.go
@@ -63,6 +63,7 @@ import(
 	"bytes"
 	"fmt"
 	"errors"
+	"sort"
 
 	parseError "{{.Package}}/errors"
 	"{{.Package}}/lexer"
@@ -171,12 +172,7 @@ func (P *Parser) Error(err error) (recovered bool, errorAttrib *parseError.Error
 		Err:            err,
 		ErrorToken:     P.nextToken,
 		ErrorSymbols:   P.popNonRecoveryStates(),
-		ExpectedTokens: make([]string, 0, 8),
-	}
-	for t, action := range actionTab[P.stack.top()].actions {
-		if action != nil {
-			errorAttrib.ExpectedTokens = append(errorAttrib.ExpectedTokens, t.ID())
-		}
+		ExpectedTokens: P.expectedTokens(),
 	}
 
 	if action := actionTab[P.stack.top()].actions[token.Error]; action != nil {
@@ -198,6 +194,23 @@ func (P *Parser) Error(err error) (recovered bool, errorAttrib *parseError.Error
 	return
 }
 
+// expectedTokens returns the IDs of the tokens for which the parser has an
+// action in the current state, in the order of their types.
+func (P *Parser) expectedTokens() []string {
+	types := make([]token.Type, 0, 8)
+	for t, action := range actionTab[P.stack.top()].actions {
+		if action != nil {
+			types = append(types, t)
+		}
+	}
+	sort.Slice(types, func(i, j int) bool { return types[i] < types[j] })
+	ids := make([]string, len(types))
+	for i, t := range types {
+		ids[i] = t.ID()
+	}
+	return ids
+}
+
 func (P *Parser) popNonRecoveryStates() (removedAttribs []parseError.ErrorSymbol) {
 	if rs, ok := P.firstRecoveryState(); ok {
 		errorSymbols := P.stack.popN(int(P.stack.topIndex() - rs))
@@ -229,11 +242,8 @@ func (P *Parser) newError(err error) error {
 		w.WriteString(err.Error())
 	} else {
 		w.WriteString(", expected one of: ")
-		actRow := actionTab[P.stack.top()]
-		for tok, act := range actRow.actions {
-			if act != nil {
-				fmt.Fprintf(w, "%s ", tok.ID())
-			}
+		for _, id := range P.expectedTokens() {
+			fmt.Fprintf(w, "%s ", id)
 		}
 	}
 	return errors.New(w.String())
-- 
2.43.0


From e3dc448e81b618498917759b8fd93aedf96f1bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 35/38] fix: gll: descriptors were compared by address, so that
 no descriptor was ever found in U: parsing took more than cubic time and none
 of the LL grammars linear time

---
 gen/golang/gll/parser.go | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/gen/golang/gll/parser.go b/gen/golang/gll/parser.go
index e86f8f8..74feeee 100644
--- a/gen/golang/gll/parser.go
+++ b/gen/golang/gll/parser.go
@@ -117,7 +117,7 @@ type parser struct {
 	cI int
 
 	R *descriptors
-	U *descriptors
+	U map[descriptor]bool
 
 	popped   map[poppedNode]bool
 	crf      map[clusterNode][]*crfNode
@@ -134,7 +134,7 @@ func newParser(l *lexer.Lexer) *parser {
 		cI:     0,
 		lex:    l,
 		R:      &descriptors{},
-		U:      &descriptors{},
+		U:      map[descriptor]bool{},
 		popped: make(map[poppedNode]bool),
 		crf: map[clusterNode][]*crfNode{
 			{symbols.NT_{{.StartSymbol}}, 0}: {},
@@ -334,15 +334,6 @@ type descriptors struct {
 	set []*descriptor
 }
 
-func (ds *descriptors) contain(d *descriptor) bool {
-	for _, d1 := range ds.set {
-		if d1 == d {
-			return true
-		}
-	}
-	return false
-}
-
 func (ds *descriptors) empty() bool {
 	return len(ds.set) == 0
 }
@@ -372,10 +363,10 @@ func (d *descriptor) String() string {
 
 func (p *parser) dscAdd(L slot.Label, k, i int) {
 	// fmt.Printf("p.dscAdd(%s,%d,%d)\n", L, k, i)
-	d := &descriptor{L, k, i}
-	if !p.U.contain(d) {
-		p.R.set = append(p.R.set, d)
-		p.U.set = append(p.U.set, d)
+	d := descriptor{L, k, i}
+	if !p.U[d] {
+		p.R.set = append(p.R.set, &d)
+		p.U[d] = true
 	}
 }
 
@@ -400,8 +391,8 @@ func (p *parser) DumpR() {
 
 func (p *parser) DumpU() {
 	fmt.Println("U:")
-	for _, d := range p.U.set {
-		fmt.Printf(" %s\n", d)
+	for d := range p.U {
+		fmt.Printf(" %s\n", &d)
 	}
 }
 
-- 
2.43.0


From a128e648d522ea4f158d2c1afa63cc89de2a3590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 36/38] fix: gll: call looked at all positions of the input for
 the ones at which a nonterminal ended: quadratic time for LL grammars

---
 gen/golang/gll/parser.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gen/golang/gll/parser.go b/gen/golang/gll/parser.go
index 74feeee..0a36de3 100644
--- a/gen/golang/gll/parser.go
+++ b/gen/golang/gll/parser.go
@@ -120,6 +120,8 @@ type parser struct {
 	U map[descriptor]bool
 
 	popped   map[poppedNode]bool
+	// rightExtents has the j of all (X,k,j) in popped
+	rightExtents map[clusterNode][]int
 	crf      map[clusterNode][]*crfNode
 	crfNodes map[crfNode]*crfNode
 
@@ -136,6 +138,7 @@ func newParser(l *lexer.Lexer) *parser {
 		R:      &descriptors{},
 		U:      map[descriptor]bool{},
 		popped: make(map[poppedNode]bool),
+		rightExtents: make(map[clusterNode][]int),
 		crf: map[clusterNode][]*crfNode{
 			{symbols.NT_{{.StartSymbol}}, 0}: {},
 		},
@@ -267,11 +270,9 @@ func (p *parser) call(L slot.Label, i, j int) {
 			// fmt.Printf("  !existEdge(%v)\n", u)
 			p.crf[ndV] = append(v, u)
 			// fmt.Printf("|popped|=%d\n", len(popped))
-			for h := j; h < len(p.lex.Tokens); h++ {
-				if p.popped[poppedNode{X, j, h}] {
-					p.dscAdd(L, i, h)
-					p.bsrSet.Add(L, i, j, h)
-				}
+			for _, h := range p.rightExtents[ndV] {
+				p.dscAdd(L, i, h)
+				p.bsrSet.Add(L, i, j, h)
 			}
 		}
 	}
@@ -291,6 +292,7 @@ func (p *parser) rtn(X symbols.NT, k, j int) {
 	pn := poppedNode{X, k, j}
 	if _, exist := p.popped[pn]; !exist {
 		p.popped[pn] = true
+		p.rightExtents[clusterNode{X, k}] = append(p.rightExtents[clusterNode{X, k}], j)
 		for _, nd := range p.crf[clusterNode{X, k}] {
 			p.dscAdd(nd.L, nd.i, j)
 			p.bsrSet.Add(nd.L, nd.i, k, j)
-- 
2.43.0


From a75256f10ea5bd95096e7f5950923da4e7802974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 37/38] fix: bsr: adding a string looked at all strings with
 the same extent: more than cubic time

---
 gen/golang/gll/bsr/bsr.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index 0d00f5f..2bc7e54 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -73,6 +73,7 @@ type Set struct {
     slotEntries   map[BSR]bool
     ntSlotEntries map[ntSlot][]BSR
     stringEntries map[stringKey]stringBSRs
+    stringPivots  map[stringPivot]bool
     rightExtent   int
     lex           *lexer.Lexer
 
@@ -108,12 +109,18 @@ type stringBSRs []*stringBSR
 
 type stringKey string
 
+type stringPivot struct {
+    key   stringKey
+    pivot int
+}
+
 // New returns a new initialised BSR Set
 func New(startSymbol symbols.NT, l *lexer.Lexer) *Set {
     return &Set{
         slotEntries:   make(map[BSR]bool),
         ntSlotEntries: make(map[ntSlot][]BSR),
         stringEntries: make(map[stringKey]stringBSRs),
+        stringPivots:  make(map[stringPivot]bool),
         rightExtent:   0,
         lex:           l,
         startSym:      startSymbol,
@@ -268,12 +275,12 @@ func (s *Set) insert(bsr bsr) {
         nt := ntSlot{b.Label.Head(), b.leftExtent, b.rightExtent}
         s.ntSlotEntries[nt] = append(s.ntSlotEntries[nt], b)
     case *stringBSR:
-        for _, b1 := range s.stringEntries[b.key()] {
-            if b1.pivot == b.pivot {
-                return
-            }
+        key := b.key()
+        if s.stringPivots[stringPivot{key, b.pivot}] {
+            return
         }
-        s.stringEntries[b.key()] = append(s.stringEntries[b.key()], b)
+        s.stringPivots[stringPivot{key, b.pivot}] = true
+        s.stringEntries[key] = append(s.stringEntries[key], b)
     default:
         panic(fmt.Sprintf("Invalid type %T", bsr))
     }
-- 
2.43.0


From 1fe8a0fb7bf2d5c2442570616dda328a3e6c2da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 38/38] fix: bsr: ToSPPF did not share intermediate nodes:
 there was one for every parent, and more than cubic time and space

---
 gen/golang/gll/bsr/bsr.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index 2bc7e54..6e82f16 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -637,12 +637,14 @@ func isAmbiguous(b BSR) bool {
 type bldSPPF struct {
     root         *sppf.SymbolNode
     extLeafNodes []sppf.Node
+    iNodes       map[string]*sppf.IntermediateNode
     pNodes       map[string]*sppf.PackedNode
     sNodes       map[string]*sppf.SymbolNode // Index is Node.Label()
 }
 
 func (pf *Set) ToSPPF() *sppf.SymbolNode {
     bld := &bldSPPF{
+        iNodes: map[string]*sppf.IntermediateNode{},
         pNodes: map[string]*sppf.PackedNode{},
         sNodes: map[string]*sppf.SymbolNode{},
     }
@@ -694,6 +696,10 @@ func (bld *bldSPPF) mkIN(nt symbols.NT, body symbols.Symbols, pos int,
         Lext: lext,
         Rext: rext,
     }
+    if in1, exist := bld.iNodes[in.Label()]; exist {
+        return in1
+    }
+    bld.iNodes[in.Label()] = in
     bld.extLeafNodes = append(bld.extLeafNodes, in)
     return in
 }
-- 
2.43.0

