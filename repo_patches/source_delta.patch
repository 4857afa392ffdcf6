From 3075b48ae88fa35b075c8cb878242ba03526603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 01/42] fix: keep negating a -symbol after its first evaluation

---
 vfilter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vfilter.go b/vfilter.go
index f64a583..b3dbe8d 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1741,11 +1741,12 @@ func (self *_SymbolRef) getFunction(scope types.Scope) (res types.Any, negated,
 	if components == nil {
 		components = utils.SplitIdent(self.Symbol)
 		if len(components) > 0 && strings.HasPrefix(components[0], "-") {
-			negated = true
+			self.Negated = true
 			components[0] = strings.TrimPrefix(components[0], "-")
 		}
 		self.split_symbol = components
 	}
+	negated = self.Negated
 	self.mu.Unlock()
 
 	// Single item reference and called - call built in function.
-- 
2.43.0


From 14e86a8779798068d50a50d34aede36f156fb0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:05 +0000
Subject: [PATCH 02/42] fix: evaluate the <> operator as not equal

---
 vfilter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vfilter.go b/vfilter.go
index b3dbe8d..9c966e5 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1581,7 +1581,7 @@ func (self *_ConditionOperand) Reduce(ctx context.Context, scope types.Scope) An
 		result = scope.Lt(lhs, rhs)
 	case "=":
 		result = scope.Eq(lhs, rhs)
-	case "!=":
+	case "!=", "<>":
 		result = !scope.Eq(lhs, rhs)
 	case "<=":
 		result = scope.Lt(lhs, rhs) || scope.Eq(lhs, rhs)
-- 
2.43.0


From a34298222a5fbb0254bf785ea7710682fd481738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 03/42] fix: LIMIT 0 emits no rows

---
 vfilter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vfilter.go b/vfilter.go
index 9c966e5..2af4902 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -620,6 +620,9 @@ func (self *_Select) Eval(ctx context.Context, scope types.Scope) <-chan Row {
 			defer close(output_chan)
 
 			limit := int(*self.Limit)
+			if limit <= 0 {
+				return
+			}
 			count := 1
 
 			self_copy := *self
-- 
2.43.0


From 49757aed5d7042efbeb541fb6b5b78ecb1419446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:11 +0000
Subject: [PATCH 04/42] fix: evaluate a redefined column once

---
 lazy.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lazy.go b/lazy.go
index 88da892..00938b1 100644
--- a/lazy.go
+++ b/lazy.go
@@ -38,6 +38,18 @@ type LazyRowImpl struct {
 
 func (self *LazyRowImpl) AddColumn(
 	name string, getter func(ctx context.Context, scope types.Scope) types.Any) types.LazyRow {
+	// A redefined column moves to the end. It should only appear (and
+	// be evaluated) once.
+	_, pres := self.getters[name]
+	if pres {
+		for i, column := range self.columns {
+			if column == name {
+				self.columns = append(self.columns[:i], self.columns[i+1:]...)
+				break
+			}
+		}
+	}
+
 	self.getters[name] = getter
 	self.columns = append(self.columns, name)
 	return self
-- 
2.43.0


From 984eb6b780fb83389935712fda4f13002ceee22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 05/42] fix: operators treat float32 values like other floats

---
 protocols/common.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/protocols/common.go b/protocols/common.go
index 2421e4b..cb0e53f 100644
--- a/protocols/common.go
+++ b/protocols/common.go
@@ -9,7 +9,13 @@ import (
 func maybeReduce(a types.Any) types.Any {
 	lazy_expr, ok := a.(types.LazyExpr)
 	if ok {
-		return lazy_expr.Reduce(context.Background())
+		a = lazy_expr.Reduce(context.Background())
+	}
+
+	// There are only 64 bit floats in VQL.
+	float, ok := a.(float32)
+	if ok {
+		return float64(float)
 	}
 	return a
 }
-- 
2.43.0


From 0b9445c872ff7ea6f63b9fe4ac914c43f0e8aa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 06/42] fix: division by float zero is NULL, zero divided by a
 float is zero

---
 protocols/protocol_div.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocols/protocol_div.go b/protocols/protocol_div.go
index 71c493c..69dcd84 100644
--- a/protocols/protocol_div.go
+++ b/protocols/protocol_div.go
@@ -22,6 +22,7 @@ func (self DivDispatcher) Copy() DivDispatcher {
 
 func (self DivDispatcher) Div(scope types.Scope, a types.Any, b types.Any) types.Any {
 	a = maybeReduce(a)
+	b = maybeReduce(b)
 
 	switch t := a.(type) {
 	case types.Null, *types.Null, nil:
@@ -44,7 +45,7 @@ func (self DivDispatcher) Div(scope types.Scope, a types.Any, b types.Any) types
 	case float64:
 		a_float, ok := utils.ToFloat(a)
 		if ok {
-			if a_float == 0 {
+			if t == 0 {
 				return &types.Null{}
 			}
 			return a_float / t
-- 
2.43.0


From d8b1a9fc96738b51556f1de05289019786a21e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:48 +0000
Subject: [PATCH 07/42] fix: multiplying a string by a negative or huge number
 does not panic

---
 protocols/protocol_mul.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/protocols/protocol_mul.go b/protocols/protocol_mul.go
index be4d3f1..070c68e 100644
--- a/protocols/protocol_mul.go
+++ b/protocols/protocol_mul.go
@@ -33,8 +33,14 @@ func (self MulDispatcher) Mul(scope types.Scope, a types.Any, b types.Any) types
 	case string:
 		b_int, ok := utils.ToInt64(b)
 		if ok {
+			// A string can not be repeated a negative number of times.
+			if b_int < 0 {
+				scope.Log("Multiply Str x Int with negative Count %v", b_int)
+				return &types.Null{}
+			}
+
 			// Estimate how much memory we will use when duplicating the string
-			memory := uint64(len(t)) * uint64(b_int)
+			memory := float64(len(t)) * float64(b_int)
 			if memory > 100000000 { // 100mb
 				scope.Log("Multiply Str x Int exceeded memory limits. Len Str %v * Count %v = %v",
 					len(t), int(b_int), memory)
-- 
2.43.0


From 0313b929822115b0a21618d5bc8c882aa2a55e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:40 +0000
Subject: [PATCH 08/42] fix: sort NULL and missing values consistently, order
 equal values consistently with DESC

---
 sort/sort.go | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/sort/sort.go b/sort/sort.go
index b9ed8ee..10fd1fb 100644
--- a/sort/sort.go
+++ b/sort/sort.go
@@ -78,22 +78,18 @@ func (self *DefaultSorterCtx) Less(i, j int) bool {
 	element2, pres2 := self.Scope.Associative(
 		self.Items[j], self.OrderBy)
 
-	if !pres1 || !pres2 {
-		return false
-	}
-
-	// Sort NULL like an empty string because normally NULL
-	// comparisons are not stable.
-	if types.IsNil(element1) {
-		element1 = ""
-	}
+	// NULL or missing values sort before everything else because
+	// normally NULL comparisons are not stable.
+	null1 := !pres1 || types.IsNil(element1)
+	null2 := !pres2 || types.IsNil(element2)
 
-	if types.IsNil(element2) {
-		element2 = ""
+	if self.Desc {
+		element1, element2 = element2, element1
+		null1, null2 = null2, null1
 	}
 
-	if self.Desc {
-		return !self.Scope.Lt(element1, element2)
+	if null1 || null2 {
+		return null1 && !null2
 	}
 
 	return self.Scope.Lt(element1, element2)
-- 
2.43.0


From 20b91ab72d4fa8b65a818febd50e988835d0bb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:43 +0000
Subject: [PATCH 09/42] fix: < and > agree with each other on booleans, values
 of different kinds are not ordered

---
 protocols/protocol_gt.go | 17 ++---------------
 protocols/protocol_lt.go | 13 -------------
 2 files changed, 2 insertions(+), 28 deletions(-)

diff --git a/protocols/protocol_gt.go b/protocols/protocol_gt.go
index 3842304..50f0483 100644
--- a/protocols/protocol_gt.go
+++ b/protocols/protocol_gt.go
@@ -24,7 +24,7 @@ func (self GtDispatcher) Copy() GtDispatcher {
 
 func intGt(lhs int64, b types.Any) bool {
 	switch b.(type) {
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case bool, int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
 		rhs, _ := utils.ToInt64(b)
 		return lhs > rhs
 	case float64, float32:
@@ -58,7 +58,7 @@ func (self GtDispatcher) Gt(scope types.Scope, a types.Any, b types.Any) bool {
 		}
 
 		// If it is integer like, coerce to int.
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case bool, int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
 		if isTime(b) {
 			lhs, ok := utils.ToInt64(t)
 			if ok {
@@ -103,19 +103,6 @@ func (self GtDispatcher) Gt(scope types.Scope, a types.Any, b types.Any) bool {
 			return lhs > t
 		}
 
-		// If it is integer like, coerce to int.
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
-		rhs, ok := utils.ToInt64(t)
-		if ok {
-			if intLt(rhs, a) {
-				return false
-			}
-			if intEq(rhs, a) {
-				return false
-			}
-			return true
-		}
-
 	case float64:
 		lhs, ok := utils.ToFloat(a)
 		if ok {
diff --git a/protocols/protocol_lt.go b/protocols/protocol_lt.go
index 5123161..94cb4ec 100644
--- a/protocols/protocol_lt.go
+++ b/protocols/protocol_lt.go
@@ -111,19 +111,6 @@ func (self LtDispatcher) Lt(scope types.Scope, a types.Any, b types.Any) bool {
 	case types.Null, *types.Null, nil:
 		return false
 
-		// If it is integer like, coerce to int.
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
-		rhs, ok := utils.ToInt64(t)
-		if ok {
-			if intGt(rhs, a) {
-				return false
-			}
-			if intEq(rhs, a) {
-				return false
-			}
-			return true
-		}
-
 	case float64:
 		lhs, ok := utils.ToFloat(a)
 		if ok {
-- 
2.43.0


From 30fb4203843a867c72f2208bd96b2fba9d8d3bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:46 +0000
Subject: [PATCH 10/42] fix: equality is symmetric between booleans, numbers
 and times

---
 protocols/protocol_eq.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/protocols/protocol_eq.go b/protocols/protocol_eq.go
index c1b2625..f5f874e 100644
--- a/protocols/protocol_eq.go
+++ b/protocols/protocol_eq.go
@@ -37,19 +37,25 @@ func (self EqDispatcher) Eq(scope types.Scope, a types.Any, b types.Any) bool {
 			return t == rhs
 		}
 
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case bool, int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+		if isTime(b) {
+			rhs, _ := toTime(b)
+			lhs, ok := toTime(a)
+			return ok && lhs.UnixNano() == rhs.UnixNano()
+		}
+
 		lhs, ok := utils.ToInt64(a)
 		if ok {
 			return intEq(lhs, b)
 		}
 
-	case bool:
-		rhs, ok := b.(bool)
-		if ok {
-			return t == rhs
+	case float64:
+		if isTime(b) {
+			rhs, _ := toTime(b)
+			lhs, ok := toTime(a)
+			return ok && lhs.UnixNano() == rhs.UnixNano()
 		}
 
-	case float64:
 		rhs, ok := utils.ToFloat(b)
 		if ok {
 			return t == rhs
-- 
2.43.0


From d4f13ad216b369ab9a6d13dfd58f564e14b1c246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 11/42] fix: stop a query once its truth is known

---
 protocols/stored_query.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/protocols/stored_query.go b/protocols/stored_query.go
index 3d7c933..08c1227 100644
--- a/protocols/stored_query.go
+++ b/protocols/stored_query.go
@@ -57,10 +57,14 @@ type _StoredQueryBool struct{}
 func (self _StoredQueryBool) Bool(ctx context.Context, scope types.Scope, a types.Any) bool {
 	stored_query, ok := a.(types.StoredQuery)
 	if ok {
+		// Cancel the query when we are done with it.
+		sub_ctx, cancel := context.WithCancel(ctx)
+		defer cancel()
+
 		new_scope := scope.Copy()
 		defer new_scope.Close()
 
-		from_chan := stored_query.Eval(ctx, new_scope)
+		from_chan := stored_query.Eval(sub_ctx, new_scope)
 		for {
 			// As soon as a single result is returned we
 			// can cancel the query.
-- 
2.43.0


From a059a88f5b90fbd2a1d3712af64d77115cff73a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:08 +0000
Subject: [PATCH 12/42] fix: parse members and indexes in every factor of a
 product

---
 outline.go | 2 +-
 vfilter.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/outline.go b/outline.go
index 23abe27..e9b99b9 100644
--- a/outline.go
+++ b/outline.go
@@ -217,7 +217,7 @@ func collectMultiplicationFunctions(expr *_MultiplicationExpression, children *[
 	}
 	collectMemberFunctions(expr.Left, children)
 	for _, term := range expr.Right {
-		collectValueFunctions(term.Factor, children)
+		collectMemberFunctions(term.Factor, children)
 	}
 }
 
diff --git a/vfilter.go b/vfilter.go
index 2af4902..4cf8811 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -918,8 +918,8 @@ type _MultiplicationExpression struct {
 }
 
 type _OpFactor struct {
-	Operator string  `@("*" | "/")`
-	Factor   *_Value `@@`
+	Operator string             `@("*" | "/")`
+	Factor   *_MemberExpression `@@`
 }
 
 // Expression for membership access (dot operator).
-- 
2.43.0


From 30fb4f22b36c7d9b3e9cd9f5ca2dc4535a45497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:30 +0000
Subject: [PATCH 13/42] fix: convert float32 and uint values to numbers

---
 utils/utils.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/utils/utils.go b/utils/utils.go
index c3d8d4d..de75a09 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -92,6 +92,8 @@ func ToFloat(x interface{}) (float64, bool) {
 		}
 	case float64:
 		return t, true
+	case float32:
+		return float64(t), true
 	case int:
 		return float64(t), true
 	case uint:
@@ -116,6 +118,8 @@ func ToFloat(x interface{}) (float64, bool) {
 		return float64(t), true
 	case *float64:
 		return *t, true
+	case *float32:
+		return float64(*t), true
 	case *int:
 		return float64(*t), true
 	case *uint:
@@ -148,7 +152,7 @@ func ToFloat(x interface{}) (float64, bool) {
 func IsInt(x interface{}) bool {
 	switch x.(type) {
 	case bool, int, int8, int16, int32, int64,
-		uint8, uint16, uint32, uint64:
+		uint, uint8, uint16, uint32, uint64:
 		return true
 	}
 
@@ -165,6 +169,8 @@ func ToInt64(x interface{}) (int64, bool) {
 		}
 	case int:
 		return int64(t), true
+	case uint:
+		return int64(t), true
 	case uint8:
 		return int64(t), true
 	case int8:
@@ -183,9 +189,13 @@ func ToInt64(x interface{}) (int64, bool) {
 		return t, true
 	case float64:
 		return int64(t), true
+	case float32:
+		return int64(t), true
 
 	case *int:
 		return int64(*t), true
+	case *uint:
+		return int64(*t), true
 	case *uint8:
 		return int64(*t), true
 	case *int8:
@@ -204,6 +214,8 @@ func ToInt64(x interface{}) (int64, bool) {
 		return int64(*t), true
 	case *float64:
 		return int64(*t), true
+	case *float32:
+		return int64(*t), true
 
 	default:
 		return 0, false
-- 
2.43.0


From ae5c125873ccdd87166874de49fa07e499f861ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:53 +0000
Subject: [PATCH 14/42] fix: tell GROUP BY lists apart component by component

---
 vfilter_group.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/vfilter_group.go b/vfilter_group.go
index 4912d39..9da3f80 100644
--- a/vfilter_group.go
+++ b/vfilter_group.go
@@ -2,6 +2,7 @@ package vfilter
 
 import (
 	"context"
+	"fmt"
 	"io"
 
 	"github.com/Velocidex/ordereddict"
@@ -64,8 +65,7 @@ func (self *GroupbyActor) GetNextRow(ctx context.Context, scope types.Scope) (
 
 		// Materialize the group by value as much as possible - we
 		// don't want a lazy item here.
-		gb_element := types.ToString(ctx, new_scope,
-			self.delegate.GroupBy.Reduce(ctx, new_scope))
+		gb_element := self.getGroupKey(ctx, new_scope)
 
 		closer()
 
@@ -76,6 +76,25 @@ func (self *GroupbyActor) GetNextRow(ctx context.Context, scope types.Scope) (
 	return nil, nil, "", nil, io.EOF
 }
 
+// The unique string form of the group by expression. Lists are told
+// apart by each of their components.
+func (self *GroupbyActor) getGroupKey(
+	ctx context.Context, scope types.Scope) string {
+	value := self.delegate.GroupBy.Reduce(ctx, scope)
+
+	components, ok := value.([]Any)
+	if !ok || len(self.delegate.GroupBy.Right) == 0 {
+		return types.ToString(ctx, scope, value)
+	}
+
+	result := ""
+	for _, component := range components {
+		str := types.ToString(ctx, scope, component)
+		result += fmt.Sprintf("%d:%s,", len(str), str)
+	}
+	return result
+}
+
 func (self *GroupbyActor) MaterializeRow(ctx context.Context,
 	row types.Row, scope types.Scope) *ordereddict.Dict {
 	return MaterializedLazyRow(ctx, row, scope)
-- 
2.43.0


From 1b7d975c1941b13a138fa93c8e60838b35610a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:28 +0000
Subject: [PATCH 15/42] fix: do not leak the goroutine feeding a cancelled sort

---
 vfilter.go       | 6 +++++-
 vfilter_group.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index 4cf8811..d8f0520 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -676,7 +676,11 @@ func (self *_Select) Eval(ctx context.Context, scope types.Scope) <-chan Row {
 			self_copy.OrderBy = nil
 
 			for row := range self_copy.Eval(ctx, scope) {
-				sorter_input_chan <- row
+				select {
+				case <-ctx.Done():
+					return
+				case sorter_input_chan <- row:
+				}
 			}
 		}()
 
diff --git a/vfilter_group.go b/vfilter_group.go
index 9da3f80..4790b67 100644
--- a/vfilter_group.go
+++ b/vfilter_group.go
@@ -133,7 +133,11 @@ func (self *_Select) EvalGroupBy(ctx context.Context, scope types.Scope) <-chan
 		self_copy.OrderBy = nil
 
 		for row := range grouper_output_chan {
-			sorter_input_chan <- row
+			select {
+			case <-ctx.Done():
+				return
+			case sorter_input_chan <- row:
+			}
 		}
 	}()
 
-- 
2.43.0


From c11eacee6d0a84775d5cf34c6a9e7fe4abb12975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:31 +0000
Subject: [PATCH 16/42] fix: do not leak foreach when it is cancelled while its
 workers are busy

---
 plugins/foreach.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/plugins/foreach.go b/plugins/foreach.go
index 6122d7a..0727206 100644
--- a/plugins/foreach.go
+++ b/plugins/foreach.go
@@ -90,7 +90,7 @@ func (self _ForeachPluginImpl) Call(ctx context.Context,
 				// child_scope is closed in the pool worker.
 
 				child_scope.AppendVars(row_item)
-				pool.RunScope(child_scope)
+				pool.RunScope(ctx, child_scope)
 			}
 		}
 	}()
@@ -118,8 +118,14 @@ type workerPool struct {
 	output_chan chan types.Row
 }
 
-func (self *workerPool) RunScope(scope types.Scope) {
-	self.ch <- scope
+func (self *workerPool) RunScope(ctx context.Context, scope types.Scope) {
+	select {
+	case <-ctx.Done():
+		// The workers may be gone already.
+		scope.Close()
+
+	case self.ch <- scope:
+	}
 }
 
 func (self *workerPool) Close() {
-- 
2.43.0


From 48630ed0a251918a8cc06e8b8174c8b039b65606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:10 +0000
Subject: [PATCH 17/42] fix: operators treat uint values like other integers

---
 protocols/common.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/protocols/common.go b/protocols/common.go
index cb0e53f..a4ff700 100644
--- a/protocols/common.go
+++ b/protocols/common.go
@@ -12,10 +12,13 @@ func maybeReduce(a types.Any) types.Any {
 		a = lazy_expr.Reduce(context.Background())
 	}
 
+	switch t := a.(type) {
 	// There are only 64 bit floats in VQL.
-	float, ok := a.(float32)
-	if ok {
-		return float64(float)
+	case float32:
+		return float64(t)
+
+	case uint:
+		return uint64(t)
 	}
 	return a
 }
-- 
2.43.0


From cfe475b62d023c3a405cbb866a83ba50af6e1210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:22 +0000
Subject: [PATCH 18/42] fix: reduce lazy patterns, indexes and slice bounds

---
 protocols/protocol_associative.go |  3 +++
 protocols/protocol_regex.go       |  1 +
 vfilter.go                        | 14 ++++++++++++--
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/protocols/protocol_associative.go b/protocols/protocol_associative.go
index 9ee988d..1950461 100644
--- a/protocols/protocol_associative.go
+++ b/protocols/protocol_associative.go
@@ -46,6 +46,9 @@ func (self *AssociativeDispatcher) Associative(
 	scope types.Scope, a types.Any, b types.Any) (types.Any, bool) {
 	ctx := context.Background()
 
+	a = maybeReduce(a)
+	b = maybeReduce(b)
+
 	if types.IsNil(a) {
 		return types.Null{}, true
 	}
diff --git a/protocols/protocol_regex.go b/protocols/protocol_regex.go
index 49524fd..cb24930 100644
--- a/protocols/protocol_regex.go
+++ b/protocols/protocol_regex.go
@@ -23,6 +23,7 @@ func (self RegexDispatcher) Copy() RegexDispatcher {
 }
 
 func (self RegexDispatcher) Match(scope types.Scope, pattern types.Any, target types.Any) bool {
+	pattern = maybeReduce(pattern)
 	target = maybeReduce(target)
 
 	pattern_str, ok := pattern.(string)
diff --git a/vfilter.go b/vfilter.go
index d8f0520..8e1e2a8 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1361,6 +1361,14 @@ func (self *_MemberExpression) IsAggregate(scope types.Scope) bool {
 	return false
 }
 
+func reduceLazy(ctx context.Context, scope types.Scope, value Any) Any {
+	lazy_expr, ok := value.(LazyExpr)
+	if ok {
+		return lazy_expr.ReduceWithScope(ctx, scope)
+	}
+	return value
+}
+
 func (self *_MemberExpression) Reduce(ctx context.Context, scope types.Scope) Any {
 	lhs := self.Left.Reduce(ctx, scope)
 	for _, term := range self.Right {
@@ -1370,7 +1378,8 @@ func (self *_MemberExpression) Reduce(ctx context.Context, scope types.Scope) An
 		if term.Range != nil {
 			var range_start *int64
 			if term.Index != nil {
-				start, ok := utils.ToInt64(term.Index.Reduce(ctx, scope))
+				start, ok := utils.ToInt64(
+					reduceLazy(ctx, scope, term.Index.Reduce(ctx, scope)))
 				if !ok {
 					return types.Null{}
 				}
@@ -1379,7 +1388,8 @@ func (self *_MemberExpression) Reduce(ctx context.Context, scope types.Scope) An
 
 			var range_end *int64
 			if term.RangeEnd != nil {
-				end, ok := utils.ToInt64(term.RangeEnd.Reduce(ctx, scope))
+				end, ok := utils.ToInt64(
+					reduceLazy(ctx, scope, term.RangeEnd.Reduce(ctx, scope)))
 				if !ok {
 					return types.Null{}
 				}
-- 
2.43.0


From 76d540897d3dc989eacf51e56869f413e62ac298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:08 +0000
Subject: [PATCH 19/42] fix: release the scope of each grouped row once it is
 evaluated

---
 grouper/grouper.go | 4 ++++
 vfilter_group.go   | 6 +++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/grouper/grouper.go b/grouper/grouper.go
index 26cbafb..e12b07e 100644
--- a/grouper/grouper.go
+++ b/grouper/grouper.go
@@ -74,6 +74,10 @@ func (self *DefaultGrouper) Group(
 			new_row := actor.MaterializeRow(ctx, row, new_scope)
 
 			aggregate_ctx.row = new_row
+
+			// The row is materialized: release anything its
+			// evaluation acquired.
+			new_scope.Close()
 		}
 
 		// Emit the binned set as a new result set.
diff --git a/vfilter_group.go b/vfilter_group.go
index 4790b67..6da13f7 100644
--- a/vfilter_group.go
+++ b/vfilter_group.go
@@ -67,9 +67,9 @@ func (self *GroupbyActor) GetNextRow(ctx context.Context, scope types.Scope) (
 		// don't want a lazy item here.
 		gb_element := self.getGroupKey(ctx, new_scope)
 
-		closer()
-
-		// Emit a single row.
+		// Emit a single row. The caller evaluates the rest of the
+		// row and then closes new_scope, which also closes the
+		// transformed row's own scope.
 		return transformed_row, row, gb_element, new_scope, nil
 	}
 
-- 
2.43.0


From 66128d36d40cf6690737d4db7583ea5bc7d4d053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 20/42] fix: keep the scope of a called query open while the
 query runs

---
 stored.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/stored.go b/stored.go
index 8ac8c51..41112f5 100644
--- a/stored.go
+++ b/stored.go
@@ -98,7 +98,6 @@ func (self *_StoredQuery) Call(ctx context.Context,
 	// functions inside the stored query start fresh.
 	sub_scope := scope.Copy()
 	sub_scope.SetAggregatorCtx(nil)
-	defer sub_scope.Close()
 
 	self.checkCallingArgs(sub_scope, args)
 
@@ -120,7 +119,24 @@ func (self *_StoredQuery) Call(ctx context.Context,
 	}
 
 	sub_scope.AppendVars(vars)
-	return self.Eval(ctx, sub_scope)
+
+	output_chan := make(chan Row)
+	go func() {
+		defer close(output_chan)
+
+		// The scope is in use until the query is done.
+		defer sub_scope.Close()
+
+		for row := range self.Eval(ctx, sub_scope) {
+			select {
+			case <-ctx.Done():
+				return
+
+			case output_chan <- row:
+			}
+		}
+	}()
+	return output_chan
 }
 
 func (self *_StoredQuery) checkCallingArgs(scope types.Scope, args *ordereddict.Dict) {
-- 
2.43.0


From 3402686adcbf41541fdf9bbe78a4afee93cbbde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:34 +0000
Subject: [PATCH 21/42] fix: refuse destructors that Close() would never run

A destructor added between the last round of Close() and the scope
being marked as destroyed was accepted but never called.
---
 scope/scope.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/scope/scope.go b/scope/scope.go
index 919f183..8c6ab19 100644
--- a/scope/scope.go
+++ b/scope/scope.go
@@ -49,17 +49,29 @@ func (self *_destructors) IsDestroyed() bool {
 	return self.is_destroyed
 }
 
-func (self *_destructors) AddDestructor(fn func()) {
+// Returns false if the scope is already destroyed - the destructor will
+// never be called.
+func (self *_destructors) AddDestructor(fn func()) bool {
 	self.mu.Lock()
 	defer self.mu.Unlock()
 
+	if self.is_destroyed {
+		return false
+	}
 	self.fn = append(self.fn, fn)
+	return true
 }
 
+// When there are no more destructors, no more can be added: a
+// destructor added between the last round and the end of Close() would
+// never be called.
 func (self *_destructors) RemoveDestructors() []func() {
 	self.mu.Lock()
 	defer self.mu.Unlock()
 
+	if len(self.fn) == 0 {
+		self.is_destroyed = true
+	}
 	result := append(self.fn[:0:0], self.fn...)
 	self.fn = nil
 	return result
@@ -467,16 +479,14 @@ func (self *Scope) AddDestructor(fn func()) error {
 	defer self.Unlock()
 
 	// Scope is already destroyed - call the destructor now.
-	if self.destructors.IsDestroyed() {
+	if !self.destructors.AddDestructor(fn) {
 		_, file, line, ok := runtime.Caller(1)
 		if ok {
 			self.Log("Scope already closed when adding destructor %v:%d", file, line)
 		}
 		return errors.New("Scope already closed")
-	} else {
-		self.destructors.AddDestructor(fn)
-		return nil
 	}
+	return nil
 }
 
 func (self *Scope) IsClosed() bool {
-- 
2.43.0


From d3ac17ef86206eb9319b792bc0281eef242c3aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:20 +0000
Subject: [PATCH 22/42] fix: all calls of a function in the AST use the same
 copy

Two goroutines evaluating a parsed query for the first time each made
a copy of an aggregate function; the calls of one run were then split
between two accumulators.
---
 vfilter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vfilter.go b/vfilter.go
index 8e1e2a8..e8d3e6e 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -2024,8 +2024,13 @@ func (self *_SymbolRef) callFunction(
 	// reference in the AST is unique.
 	func_obj = CopyFunction(func_obj)
 
+	// Another goroutine may be evaluating the same AST node for the
+	// first time: all calls must use the same copy.
 	self.mu.Lock()
-	self.function = func_obj
+	if self.function == nil {
+		self.function = func_obj
+	}
+	func_obj = self.function
 	self.mu.Unlock()
 
 	// Call the function now.
-- 
2.43.0


From 3e093a52c51c9f36843dbe412c7ec4a8ffbeb3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:42 +0000
Subject: [PATCH 23/42] fix: formatting a query does not write to its AST

Concurrent runs of the same parsed query raced on the column position
kept there for the formatter.
---
 vfilter.go |  2 --
 visitor.go | 12 +++++-------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index e8d3e6e..c82aecd 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -825,8 +825,6 @@ type _AliasedExpression struct {
 
 	As string `[ AS @Ident ]`
 
-	// The position of this column in the SELECT
-	pos                int
 	mu                 sync.Mutex
 	cache, column_name *string
 }
diff --git a/visitor.go b/visitor.go
index 1fb0077..d138f8a 100644
--- a/visitor.go
+++ b/visitor.go
@@ -347,7 +347,7 @@ func (self *Visitor) Visit(node interface{}) {
 		self.visitParameterList(t)
 
 	case *_AliasedExpression:
-		self.visitAliasedExpression(t)
+		self.visitAliasedExpression(t, 0)
 
 	case *Lambda:
 		self.visitLambda(t)
@@ -443,7 +443,9 @@ func (self *Visitor) isCurrentLineSpace() bool {
 }
 
 // Aliased expressions are elements after the SELECT separated by ,
-func (self *Visitor) visitAliasedExpression(node *_AliasedExpression) {
+// and pos is their position in that list. The AST is shared by
+// concurrent queries so it can not be kept in there.
+func (self *Visitor) visitAliasedExpression(node *_AliasedExpression, pos int) {
 	node.mu.Lock()
 	defer node.mu.Unlock()
 
@@ -454,8 +456,6 @@ func (self *Visitor) visitAliasedExpression(node *_AliasedExpression) {
 		return
 	}
 
-	pos := node.pos
-
 	if node.Expression != nil {
 		// We have two choices here - fit the expression on the
 		// current line, or break lines
@@ -1003,9 +1003,7 @@ func (self *Visitor) visitSelectExpression(node *_SelectExpression) {
 	}
 
 	for idx, item := range node.Expressions {
-		item.pos = idx
-
-		self.Visit(item)
+		self.visitAliasedExpression(item, idx)
 		// No trailing , in the last element.
 		if idx < len(node.Expressions)-1 {
 			self.push(",", " ")
-- 
2.43.0


From 95a717e282cc10ab7c0d608862f03120513c2357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 24/42] fix: tell the explainer about the source rows of a
 GROUP BY query

---
 vfilter_group.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vfilter_group.go b/vfilter_group.go
index 6da13f7..e59cdff 100644
--- a/vfilter_group.go
+++ b/vfilter_group.go
@@ -28,6 +28,9 @@ func (self *GroupbyActor) GetNextRow(ctx context.Context, scope types.Scope) (
 	types.LazyRow, types.Row, string, types.Scope, error) {
 
 	for row := range self.row_source {
+		scope.Explainer().PluginOutput(
+			&self.delegate.From.Plugin, row)
+
 		// Create a new scope to carry the new vars. This ensures that
 		// when the scope is closed, the vars can be removed for the next
 		// row.
@@ -55,6 +58,7 @@ func (self *GroupbyActor) GetNextRow(ctx context.Context, scope types.Scope) (
 			// skip the row.
 			if expression == nil || !scope.Bool(expression) {
 				new_scope.Trace("During Groupby: Row rejected")
+				scope.Explainer().RejectRow(self.delegate.Where)
 
 				// Prepare the next row
 				new_scope.Close()
-- 
2.43.0


From e29ed2d4aa85794a43f8c16472d942a2e5e03d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:18 +0000
Subject: [PATCH 25/42] fix: cut off the recursion of a default argument that
 calls its own function

---
 scope/scope.go | 3 ++-
 stored.go      | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/scope/scope.go b/scope/scope.go
index 8c6ab19..4c07efe 100644
--- a/scope/scope.go
+++ b/scope/scope.go
@@ -263,9 +263,10 @@ func (self *Scope) ChargeOp() {
 func (self *Scope) CheckForOverflow() bool {
 	self.Lock()
 	vars := self.vars[:]
+	depth := self.stack_depth
 	self.Unlock()
 
-	if self.stack_depth < 1000 {
+	if depth < 1000 {
 		return false
 	}
 
diff --git a/stored.go b/stored.go
index 41112f5..ae5cf59 100644
--- a/stored.go
+++ b/stored.go
@@ -203,6 +203,12 @@ func applyDefaults(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict,
 	defaults map[string]*_Args) {
 
+	// A default may call what it is the default of, this counts
+	// towards the depth.
+	int_scope := GetIntScope(scope)
+	int_scope.IncDepth()
+	defer int_scope.DecDepth()
+
 	for name, arg := range defaults {
 		_, pres := args.Get(name)
 
-- 
2.43.0


From 3f58f1e19825cbc13f7660a3bd1c6aa179291b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 26/42] fix: bind a query given as the default of a quoted
 parameter

---
 stored.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stored.go b/stored.go
index ae5cf59..0f68057 100644
--- a/stored.go
+++ b/stored.go
@@ -219,7 +219,7 @@ func applyDefaults(ctx context.Context, scope types.Scope,
 			if arg.Right != nil {
 				args.Set(name, arg.Right.Reduce(ctx, scope))
 			} else if arg.SubSelect != nil {
-				args.Set(arg.Left, arg.SubSelect)
+				args.Set(name, arg.SubSelect)
 			} else if arg.Array != nil {
 				args.Set(name, arg.Array.Reduce(ctx, scope))
 			} else if arg.ArrayOpenBrace != "" {
-- 
2.43.0


From 88e50215aba62a71cf5ed3d0cf151c92a8c4ef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:20 +0000
Subject: [PATCH 27/42] fix: resolving a name through nested scope rows is not
 exponential

---
 scope/scope.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/scope/scope.go b/scope/scope.go
index 4c07efe..7d5dde4 100644
--- a/scope/scope.go
+++ b/scope/scope.go
@@ -271,7 +271,7 @@ func (self *Scope) CheckForOverflow() bool {
 	}
 
 	// Log the query for overflow
-	query, _ := self._ResolveVars("$Query", vars)
+	query, _ := self._ResolveVars("$Query", vars, nil)
 	self.Log("Stack Overflow: %v", query)
 
 	return true
@@ -643,6 +643,10 @@ func (self *Scope) Explainer() types.Explainer {
 
 // Fetch the field from the scope variables.
 func (self *Scope) Resolve(field string) (interface{}, bool) {
+	return self.resolve(field, nil)
+}
+
+func (self *Scope) resolve(field string, seen map[*Scope]bool) (interface{}, bool) {
 	if self.CheckForOverflow() {
 		return types.Null{}, false
 	}
@@ -653,10 +657,16 @@ func (self *Scope) Resolve(field string) (interface{}, bool) {
 	vars := self.vars[:]
 	self.Unlock()
 
-	return self._ResolveVars(field, vars)
+	return self._ResolveVars(field, vars, seen)
 }
 
-func (self *Scope) _ResolveVars(field string, vars []types.Row) (interface{}, bool) {
+// The seen map holds the scopes this search already went through. A
+// scope may itself be a row in another scope's vars (e.g. FROM
+// scope()). Such a scope shares most of its vars with the scope it is
+// in so searching it more than once takes exponential time when they
+// are nested.
+func (self *Scope) _ResolveVars(field string, vars []types.Row,
+	seen map[*Scope]bool) (interface{}, bool) {
 	var default_value types.Any
 
 	// Walk the scope stack in reverse so more recent vars shadow
@@ -667,7 +677,22 @@ func (self *Scope) _ResolveVars(field string, vars []types.Row) (interface{}, bo
 		// Allow each subscope to specify a default. In the
 		// end if a default was found then return Resolve as
 		// present.
-		element, pres := self.Associative(subscope, field)
+		var element types.Any
+		var pres bool
+
+		scope_row, ok := subscope.(*Scope)
+		if ok && scope_row != nil {
+			if seen[scope_row] {
+				continue
+			}
+			if seen == nil {
+				seen = make(map[*Scope]bool)
+			}
+			seen[scope_row] = true
+			element, pres = scope_row.resolve(field, seen)
+		} else {
+			element, pres = self.Associative(subscope, field)
+		}
 		if pres {
 			// Do not allow go nil to be emitted into the
 			// query - this leads to various panics and
-- 
2.43.0


From 9a2e4f69b71cb4e28f501e91d481f25c566b4c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:32 +0000
Subject: [PATCH 28/42] fix: a dict with a single string member is one element
 of a list of strings, not two

---
 arg_parser/args.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arg_parser/args.go b/arg_parser/args.go
index 45d97cc..5eb4c32 100644
--- a/arg_parser/args.go
+++ b/arg_parser/args.go
@@ -132,6 +132,7 @@ func _ExtractStringArray(
 					item, ok := utils.ToString(member)
 					if ok {
 						result = append(result, item)
+						continue
 					}
 				}
 			}
-- 
2.43.0


From 3d79d2404c879456439593ca45ec8715ba7681de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 29/42] fix: arguments of type float32 or of a named type do
 not panic

---
 arg_parser/parser.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/arg_parser/parser.go b/arg_parser/parser.go
index 801b144..3c0f742 100644
--- a/arg_parser/parser.go
+++ b/arg_parser/parser.go
@@ -53,6 +53,21 @@ type Parser struct {
 	Fields []*FieldParser
 }
 
+// The kind of the field decides which parser is used - its type may
+// still differ from the type of the parsed value (e.g. float32 or a
+// named string type).
+func setField(field reflect.Value, new_value interface{}) {
+	value := reflect.ValueOf(new_value)
+	if !value.IsValid() {
+		value = reflect.Zero(field.Type())
+
+	} else if !value.Type().AssignableTo(field.Type()) &&
+		value.Type().ConvertibleTo(field.Type()) {
+		value = value.Convert(field.Type())
+	}
+	field.Set(value)
+}
+
 func (self *Parser) Parse(
 	ctx context.Context, scope types.Scope, args *ordereddict.Dict, target reflect.Value) error {
 	parsed := make([]string, 0, args.Len())
@@ -76,8 +91,7 @@ func (self *Parser) Parse(
 		}
 
 		// Now set the field on the struct.
-		field_value := target.Field(parser.FieldIdx)
-		field_value.Set(reflect.ValueOf(new_value))
+		setField(target.Field(parser.FieldIdx), new_value)
 	}
 
 	// Something is wrong! We did not extract all the fields from
@@ -121,8 +135,7 @@ func (self *Parser) ParseAsFreeForm(
 		}
 
 		// Now set the field on the struct.
-		field_value := target.Field(parser.FieldIdx)
-		field_value.Set(reflect.ValueOf(new_value))
+		setField(target.Field(parser.FieldIdx), new_value)
 	}
 
 	// Remaining fields are collected into the kwargs
-- 
2.43.0


From 8f37ddcd9765acf2016dab6e4e5f2aace4360306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:58 +0000
Subject: [PATCH 30/42] fix: booleans, floats and all sizes of integers are
 refused as a dict argument

---
 arg_parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arg_parser/parser.go b/arg_parser/parser.go
index 3c0f742..2218a76 100644
--- a/arg_parser/parser.go
+++ b/arg_parser/parser.go
@@ -337,7 +337,10 @@ func dictParser(ctx context.Context, scope types.Scope,
 
 		// Trap some common types to return an error.
 		switch arg.(type) {
-		case string, int64, uint64, types.Null, *types.Null, []byte:
+		case string, bool, float64, float32,
+			int, int8, int16, int32, int64,
+			uint, uint8, uint16, uint32, uint64,
+			types.Null, *types.Null, []byte:
 			return nil, fmt.Errorf("should be a dict not %T.", arg)
 		}
 
-- 
2.43.0


From b0bf1401d173e046999d6ab6c9b8a98b2fd08197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:17 +0000
Subject: [PATCH 31/42] fix: integers, floats, NULL and the order of dicts are
 restored exactly from a saved scope

---
 marshal.go            |   9 +--
 marshal/json.go       | 150 ++++++++++++++++++++++++++++++++++++++++++
 marshal/marshaller.go |   7 +-
 marshal/unmarshal.go  |   5 +-
 4 files changed, 155 insertions(+), 16 deletions(-)
 create mode 100644 marshal/json.go

diff --git a/marshal.go b/marshal.go
index 74b866d..80e1f8f 100644
--- a/marshal.go
+++ b/marshal.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"strings"
 
-	"github.com/Velocidex/ordereddict"
 	"www.velocidex.com/golang/vfilter/marshal"
 	"www.velocidex.com/golang/vfilter/types"
 )
@@ -84,13 +83,7 @@ type OrdereddictUnmarshaller struct{}
 func (self OrdereddictUnmarshaller) Unmarshal(
 	unmarshaller types.Unmarshaller,
 	scope types.Scope, item *types.MarshalItem) (interface{}, error) {
-	dict := ordereddict.NewDict()
-	err := json.Unmarshal(item.Data, dict)
-	if err != nil {
-		return nil, err
-	}
-
-	return dict, nil
+	return marshal.Decode(item.Data)
 }
 
 func NewUnmarshaller(ignore_vars []string) *marshal.Unmarshaller {
diff --git a/marshal/json.go b/marshal/json.go
new file mode 100644
index 0000000..9a90246
--- /dev/null
+++ b/marshal/json.go
@@ -0,0 +1,150 @@
+package marshal
+
+import (
+	"bytes"
+	"context"
+	"encoding/json"
+	"fmt"
+	"reflect"
+	"strings"
+
+	"github.com/Velocidex/ordereddict"
+	"www.velocidex.com/golang/vfilter/types"
+)
+
+// Encode VQL values as JSON in such a way that Decode() yields the
+// same values. The default encoder drops the distinction between
+// floats and integers.
+func Encode(scope types.Scope, item interface{}) ([]byte, error) {
+	switch t := item.(type) {
+	case nil:
+		return []byte("null"), nil
+
+	case float32, float64:
+		serialized, err := json.Marshal(t)
+		if err == nil && !bytes.ContainsAny(serialized, ".eE") {
+			serialized = append(serialized, ".0"...)
+		}
+		return serialized, err
+
+	case *ordereddict.Dict:
+		out := &bytes.Buffer{}
+		out.WriteByte('{')
+		for idx, item := range t.Items() {
+			if idx > 0 {
+				out.WriteByte(',')
+			}
+			key, err := json.Marshal(item.Key)
+			if err != nil {
+				return nil, err
+			}
+			value, err := Encode(scope, item.Value)
+			if err != nil {
+				return nil, err
+			}
+			out.Write(key)
+			out.WriteByte(':')
+			out.Write(value)
+		}
+		out.WriteByte('}')
+		return out.Bytes(), nil
+
+	case types.Materializer:
+		return Encode(scope, t.Materialize(context.Background(), scope))
+
+	case json.Marshaler, []byte:
+		return json.Marshal(item)
+	}
+
+	value := reflect.ValueOf(item)
+	if value.Kind() == reflect.Slice && !value.IsNil() {
+		out := &bytes.Buffer{}
+		out.WriteByte('[')
+		for idx := 0; idx < value.Len(); idx++ {
+			if idx > 0 {
+				out.WriteByte(',')
+			}
+			serialized, err := Encode(scope, value.Index(idx).Interface())
+			if err != nil {
+				return nil, err
+			}
+			out.Write(serialized)
+		}
+		out.WriteByte(']')
+		return out.Bytes(), nil
+	}
+
+	return json.Marshal(item)
+}
+
+// Decode JSON into VQL values: Objects are dicts which keep the order
+// of their members and integers remain integers.
+func Decode(data []byte) (interface{}, error) {
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+	return decodeValue(decoder)
+}
+
+func decodeValue(decoder *json.Decoder) (interface{}, error) {
+	token, err := decoder.Token()
+	if err != nil {
+		return nil, err
+	}
+
+	switch t := token.(type) {
+	case nil:
+		return types.Null{}, nil
+
+	case json.Number:
+		return decodeNumber(t)
+
+	case json.Delim:
+		if t == '[' {
+			result := []interface{}{}
+			for decoder.More() {
+				value, err := decodeValue(decoder)
+				if err != nil {
+					return nil, err
+				}
+				result = append(result, value)
+			}
+			_, err = decoder.Token()
+			return result, err
+		}
+
+		result := ordereddict.NewDict()
+		for decoder.More() {
+			key, err := decoder.Token()
+			if err != nil {
+				return nil, err
+			}
+			value, err := decodeValue(decoder)
+			if err != nil {
+				return nil, err
+			}
+			result.Set(fmt.Sprint(key), value)
+		}
+		_, err = decoder.Token()
+		return result, err
+	}
+
+	return token, nil
+}
+
+func decodeNumber(number json.Number) (interface{}, error) {
+	if strings.ContainsAny(number.String(), ".eE") {
+		return number.Float64()
+	}
+
+	value, err := number.Int64()
+	if err == nil {
+		return value, nil
+	}
+
+	var unsigned uint64
+	err = json.Unmarshal([]byte(number), &unsigned)
+	if err == nil {
+		return unsigned, nil
+	}
+	return number.Float64()
+}
diff --git a/marshal/marshaller.go b/marshal/marshaller.go
index b62d2c9..3e10af2 100644
--- a/marshal/marshaller.go
+++ b/marshal/marshaller.go
@@ -1,7 +1,6 @@
 package marshal
 
 import (
-	"encoding/json"
 	"fmt"
 
 	"github.com/Velocidex/ordereddict"
@@ -16,7 +15,7 @@ func Marshal(scope types.Scope, item interface{}) (*types.MarshalItem, error) {
 		// Handle ordered dicts especially so they retain
 		// their order.
 	case *ordereddict.Dict:
-		serialized, err := json.Marshal(item)
+		serialized, err := Encode(scope, item)
 		if err != nil {
 			return nil, err
 		}
@@ -29,7 +28,7 @@ func Marshal(scope types.Scope, item interface{}) (*types.MarshalItem, error) {
 	case int, int8, int16, int32, int64,
 		uint, uint8, uint16, uint32, uint64,
 		string, float32, float64:
-		serialized, err := json.Marshal(item)
+		serialized, err := Encode(scope, item)
 		if err != nil {
 			return nil, err
 		}
@@ -42,7 +41,7 @@ func Marshal(scope types.Scope, item interface{}) (*types.MarshalItem, error) {
 		// JSON and hope for the best - but we let the user
 		// know we don't know how to handle it.
 	default:
-		serialized, err := json.Marshal(item)
+		serialized, err := Encode(scope, item)
 		if err != nil {
 			return nil, err
 		}
diff --git a/marshal/unmarshal.go b/marshal/unmarshal.go
index 974b25c..c2d7e69 100644
--- a/marshal/unmarshal.go
+++ b/marshal/unmarshal.go
@@ -1,7 +1,6 @@
 package marshal
 
 import (
-	"encoding/json"
 	"errors"
 
 	"www.velocidex.com/golang/vfilter/types"
@@ -21,9 +20,7 @@ func (self *Unmarshaller) Unmarshal(
 	scope types.Scope, item *types.MarshalItem) (interface{}, error) {
 	switch item.Type {
 	case "JSON":
-		var value interface{}
-		err := json.Unmarshal(item.Data, &value)
-		return value, err
+		return Decode(item.Data)
 
 	default:
 		handler, pres := self.Handlers[item.Type]
-- 
2.43.0


From a1f1d800d8d1a592397e6114656920c5a421d4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:19 +0000
Subject: [PATCH 32/42] fix: parameter defaults and quoted parameter names are
 kept in saved definitions

---
 marshal.go | 63 ++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 19 deletions(-)

diff --git a/marshal.go b/marshal.go
index 80e1f8f..14784db 100644
--- a/marshal.go
+++ b/marshal.go
@@ -3,13 +3,21 @@ package vfilter
 import (
 	"context"
 	"encoding/json"
-	"fmt"
+	"regexp"
 	"strings"
 
 	"www.velocidex.com/golang/vfilter/marshal"
 	"www.velocidex.com/golang/vfilter/types"
 )
 
+var (
+	// Identifiers which do not need to be quoted, unless they are
+	// words of the language.
+	simpleIdentRegex = regexp.MustCompile("^[a-zA-Z_][a-zA-Z0-9_]*$")
+	keywordRegex     = regexp.MustCompile("(?i)^(EXPLAIN|SELECT|WHERE|AND|OR|" +
+		"FROM|NOT|AS|IN|LIMIT|NULL|DESC|GROUP|ORDER|TRUE|FALSE|LET)$")
+)
+
 type StoredQueryItem struct {
 	Query      string   `json:"query,omitempty"`
 	Name       string   `json:"name,omitempty"`
@@ -19,15 +27,8 @@ type StoredQueryItem struct {
 func (self *_StoredQuery) Marshal(
 	scope types.Scope) (*types.MarshalItem, error) {
 
-	var query string
-	if self.parameters == nil {
-		query = fmt.Sprintf("LET `%v` = %s", self.name,
-			FormatToString(scope, self.query))
-	} else {
-		query = fmt.Sprintf("LET `%v`(%s) = %s", self.name,
-			strings.Join(self.parameters, ", "),
-			FormatToString(scope, self.query))
-	}
+	query := formatDefinition(scope,
+		self.name, self.parameters, self.defaults, self.query)
 
 	query_str, err := json.Marshal(query)
 	return &types.MarshalItem{
@@ -39,15 +40,8 @@ func (self *_StoredQuery) Marshal(
 func (self *StoredExpression) Marshal(
 	scope types.Scope) (*types.MarshalItem, error) {
 
-	var query string
-	if self.parameters == nil {
-		query = fmt.Sprintf("LET `%v` = %s", self.name,
-			FormatToString(scope, self.Expr))
-	} else {
-		query = fmt.Sprintf("LET `%v`(%s) = %s", self.name,
-			strings.Join(self.parameters, ", "),
-			FormatToString(scope, self.Expr))
-	}
+	query := formatDefinition(scope,
+		self.name, self.parameters, self.defaults, self.Expr)
 
 	query_str, err := json.Marshal(query)
 	return &types.MarshalItem{
@@ -56,6 +50,37 @@ func (self *StoredExpression) Marshal(
 	}, err
 }
 
+// Format the LET statement which makes the definition again.
+func formatDefinition(scope types.Scope, name string,
+	parameters []string, defaults map[string]*_Args,
+	body interface{}) string {
+
+	result := "LET " + quoteIdent(name)
+	if parameters != nil {
+		var args []string
+		for _, p := range parameters {
+			def_value, pres := defaults[p]
+			if pres {
+				args = append(args, FormatToString(scope, def_value))
+			} else if simpleIdentRegex.MatchString(p) &&
+				!keywordRegex.MatchString(p) {
+				args = append(args, p)
+			} else {
+				args = append(args, quoteIdent(p))
+			}
+		}
+		result += "(" + strings.Join(args, ", ") + ")"
+	}
+
+	return result + " = " + FormatToString(scope, body)
+}
+
+// The reverse of utils.Unquote_ident()
+func quoteIdent(name string) string {
+	name = strings.ReplaceAll(name, "\\", "\\\\")
+	return "`" + strings.ReplaceAll(name, "`", "\\x60") + "`"
+}
+
 type ReplayUnmarshaller struct{}
 
 func (self ReplayUnmarshaller) Unmarshal(
-- 
2.43.0


From a85fb631a4c2290d1289955c2c223cdbd989a93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:22 +0000
Subject: [PATCH 33/42] fix: a variable which is NULL is restored from a saved
 scope

---
 scope/marshal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scope/marshal.go b/scope/marshal.go
index 5140435..4f8a356 100644
--- a/scope/marshal.go
+++ b/scope/marshal.go
@@ -76,7 +76,8 @@ func (self ScopeUnmarshaller) Unmarshal(
 		unmarshalled, err := unmarshaller.Unmarshal(unmarshaller,
 			new_scope, v)
 		if err == nil {
-			if !types.IsNil(unmarshalled) {
+			// Handlers return nil for items they set by themselves.
+			if unmarshalled != nil {
 				env.Set(k, unmarshalled)
 			}
 		} else {
-- 
2.43.0


From 991c94b21fb6a3d4b1f23dd6624fa2844adbbc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:25 +0000
Subject: [PATCH 34/42] fix: the formatter keeps the quotes of LET parameter
 names and the parentheses of a LET without parameters

---
 visitor.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/visitor.go b/visitor.go
index d138f8a..d17cee0 100644
--- a/visitor.go
+++ b/visitor.go
@@ -1170,24 +1170,29 @@ func (self *Visitor) visitVQL(node *VQL) {
 					self.Definitions = append(self.Definitions, defsite)
 				}
 
-				for idx, p := range parameters {
+				// Emit the names as they were written - they may
+				// be quoted.
+				for idx, p := range node.LetParameters {
 					// Is it an arg with default?
-					def_value, pres := defaults[p.Name]
-					if pres {
-						self.Visit(def_value)
+					if p.DefaultArg != nil {
+						self.Visit(p.DefaultArg)
 
-					} else {
+					} else if p.Name != nil {
 						// Otherwise just emit the plain name
-						self.push(p.Name)
+						self.push(*p.Name)
 					}
 
-					if idx < len(parameters)-1 {
+					if idx < len(node.LetParameters)-1 {
 						self.push(",", " ")
 					}
 				}
 				self.push(")")
 
-			} else if self.opts.CollectDefinitionSites {
+			} else if node.Called != "" {
+				self.push("()")
+			}
+
+			if defaults == nil && self.opts.CollectDefinitionSites {
 				defsite := DefinitionSite{
 					Type: "definition",
 					Name: node.Let,
-- 
2.43.0


From b76f599a9dffb92a7d75e2763453145031eb9363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 35/42] fix: a line comment ends its line in formatted text

---
 visitor.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/visitor.go b/visitor.go
index d17cee0..869d257 100644
--- a/visitor.go
+++ b/visitor.go
@@ -393,7 +393,7 @@ func (self *Visitor) visitComment(node *_Comment) {
 		}
 
 		self.push(*node.Comment)
-		self.line_break()
+		self.end_comment()
 	}
 
 	// VQL Comments start with -- and generally follow the thing they
@@ -405,7 +405,7 @@ func (self *Visitor) visitComment(node *_Comment) {
 		}
 
 		self.push(*node.VQLComment)
-		self.line_break()
+		self.end_comment()
 	}
 
 	// Multi line comments always start at column 0 and follow by a
@@ -423,6 +423,19 @@ func (self *Visitor) visitComment(node *_Comment) {
 	}
 }
 
+// These comments extend to the end of the line, so the line must end
+// here even when we do not break lines otherwise.
+func (self *Visitor) end_comment() {
+	if self.opts.BreakLines {
+		self.line_break()
+		return
+	}
+
+	self.Fragments = append(self.Fragments, "\n")
+	self.line_breaks = append(self.line_breaks, len(self.Fragments))
+	self.pos = 0
+}
+
 func (self *Visitor) visitLambda(node *Lambda) {
 	self.Visit(node.Parameters)
 	self.push(" => ")
-- 
2.43.0


From 5f364a77d179032e409050228387c885ded01cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:29 +0000
Subject: [PATCH 36/42] fix: reformatting keeps trailing spaces of the lines of
 a string

---
 reformat/visitor.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/reformat/visitor.go b/reformat/visitor.go
index e472ef4..cd55b3e 100644
--- a/reformat/visitor.go
+++ b/reformat/visitor.go
@@ -17,11 +17,26 @@ func ReFormatVQL(scope types.Scope, query string,
 	visitor := vfilter.NewVisitor(scope, options)
 	visitor.Visit(vql)
 
-	lines := strings.Split(visitor.ToString(), "\n")
-	result := make([]string, 0, len(lines))
-	for _, l := range lines {
-		result = append(result, strings.TrimRight(l, " "))
-	}
+	return trimLines(visitor.Fragments), nil
+}
 
-	return strings.Join(result, "\n"), nil
+// Join the fragments and drop the spaces at the end of lines, except for
+// those which are part of a string.
+func trimLines(fragments []string) string {
+	result := ""
+	for _, fragment := range fragments {
+		lines := []string{fragment}
+		if !strings.HasPrefix(fragment, "'") &&
+			!strings.HasPrefix(fragment, "\"") {
+			lines = strings.Split(fragment, "\n")
+		}
+
+		for idx, l := range lines {
+			if idx > 0 {
+				result = strings.TrimRight(result, " ") + "\n"
+			}
+			result += l
+		}
+	}
+	return strings.TrimRight(result, " ")
 }
-- 
2.43.0


From 380b5ca4a2016a3e1e660a5ceaf592910c0d53c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 37/42] fix: foreach with a negative number of workers never
 ended

---
 plugins/foreach.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/foreach.go b/plugins/foreach.go
index 0727206..96b2316 100644
--- a/plugins/foreach.go
+++ b/plugins/foreach.go
@@ -39,7 +39,7 @@ func (self _ForeachPluginImpl) Call(ctx context.Context,
 		}
 
 		// At least one worker
-		if arg.Workers == 0 {
+		if arg.Workers < 1 {
 			arg.Workers = 1
 		}
 
-- 
2.43.0


From 80070e64a54619d8d59a10f3411c0e45735b31f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:11 +0000
Subject: [PATCH 38/42] fix: the end of a token is a byte offset, like its
 start

---
 tokenizer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index eadb9bc..152c75d 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -75,7 +75,8 @@ func findEndPos(start lexer.Position, value string) lexer.Position {
 		} else {
 			res.Column++
 		}
-		res.Offset++
 	}
+	// Offsets count bytes, columns count characters.
+	res.Offset += len(value)
 	return res
 }
-- 
2.43.0


From 19fcacbb96d47bf6ae9f4fa287696b088420fda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:14 +0000
Subject: [PATCH 39/42] fix: a malformed hex escape after another escape is
 copied as written

---
 utils/unquote.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/unquote.go b/utils/unquote.go
index 2007877..d17b84d 100644
--- a/utils/unquote.go
+++ b/utils/unquote.go
@@ -63,7 +63,7 @@ outer:
 				// ignore it and copy the output
 				// verbatim.
 				if err != nil {
-					out[j] = in[j]
+					out[j] = in[i]
 					i++
 					j++
 				} else {
-- 
2.43.0


From c91f4d7046b44525534a0a02c57d1128f6fd5b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:17 +0000
Subject: [PATCH 40/42] fix: a number out of range is formatted as written, not
 as FALSE

---
 visitor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/visitor.go b/visitor.go
index 869d257..1deeec6 100644
--- a/visitor.go
+++ b/visitor.go
@@ -790,6 +790,13 @@ func (self *Visitor) visitValue(node *_Value) {
 		return
 	}
 
+	// A number which is out of range stays as it was written.
+	if node.StrNumber != nil {
+		self.push(*node.StrNumber)
+		node.mu.Unlock()
+		return
+	}
+
 	node.mu.Unlock()
 	self.push("FALSE")
 }
-- 
2.43.0


From 49f7eca415e58b0ad46c520385f7dbc4781f6428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:27 +0000
Subject: [PATCH 41/42] fix: the IN operator of a lambda may be written in any
 letter case

---
 lambda.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lambda.go b/lambda.go
index fb18e22..bffad19 100644
--- a/lambda.go
+++ b/lambda.go
@@ -11,6 +11,7 @@ import (
 var (
 	lambdaParser = participle.MustBuild[Lambda](
 		participle.Lexer(vqlLexer),
+		participle.Upper("IN", "DESC"),
 		participle.Elide("Comment", "MLineComment", "VQLComment"))
 )
 
-- 
2.43.0


From 9af3a0e75d5d3245df6a1f1bfd6bbb8a15cedac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:30 +0000
Subject: [PATCH 42/42] fix: quoted parameter names of a lambda are unquoted

---
 lambda.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambda.go b/lambda.go
index bffad19..e53ca20 100644
--- a/lambda.go
+++ b/lambda.go
@@ -6,6 +6,7 @@ import (
 	"github.com/Velocidex/ordereddict"
 	"github.com/alecthomas/participle/v2"
 	"www.velocidex.com/golang/vfilter/types"
+	"www.velocidex.com/golang/vfilter/utils"
 )
 
 var (
@@ -26,7 +27,7 @@ func (self *Lambda) GetParameters() []string {
 
 	var visitor func(parameters *_ParameterList)
 	visitor = func(parameters *_ParameterList) {
-		result = append(result, parameters.Left)
+		result = append(result, utils.Unquote_ident(parameters.Left))
 		if parameters.Right != nil {
 			visitor(parameters.Right.Term)
 		}
-- 
2.43.0

