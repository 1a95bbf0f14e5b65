From 0720d9356df3a5421f89e46d89120a9e426e3888 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 01/28] fix: start Newton-Raphson iteration at the supplied
 initial values

The accumulated iterate started at zero instead of the initial values, so
the first Newton step was applied to the wrong point.
---
 single/include/tomsolver/tomsolver.h | 3 +--
 src/tomsolver/nonlinear.cpp          | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 5cae8a4..960cc6b 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3802,8 +3802,7 @@ inline void PrintAtIterationStart(int it) noexcept {
 inline VarsTable SolveByNewtonRaphson(const SymVec &equations, const VarsTable &varsTable) {
     int it = 0; // 迭代计数
     VarsTable table = varsTable;
-    int n = table.VarNums(); // 未知量数量
-    Vec q(n);                // x向量
+    Vec q = table.Values(); // x向量
     internal::PrintSolveStartInfo(equations, varsTable);
 
     SymMat JaEqs = Jacobian(equations, table.Vars());
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index dd1c74e..3943d94 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -89,8 +89,7 @@ void PrintAtIterationStart(int it) noexcept {
 VarsTable SolveByNewtonRaphson(const SymVec &equations, const VarsTable &varsTable) {
     int it = 0; // 迭代计数
     VarsTable table = varsTable;
-    int n = table.VarNums(); // 未知量数量
-    Vec q(n);                // x向量
+    Vec q = table.Values(); // x向量
     internal::PrintSolveStartInfo(equations, varsTable);
 
     SymMat JaEqs = Jacobian(equations, table.Vars());
-- 
2.43.0


From 0e20a263713b2f4e130611a728a67399e44de20c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 02/28] fix: exp(x) differentiated by another variable is 0,
 not exp(x)

The shortcut for exp of a bare variable ignored which variable the
derivative is taken by, so Jacobians with exp() had wrong entries. The
general rule plus Simplify already yields exp(x) for the matching variable.
---
 single/include/tomsolver/tomsolver.h | 4 ----
 src/tomsolver/diff.cpp               | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 960cc6b..fcc5016 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -4224,10 +4224,6 @@ public:
                 return;
             }
 
-            // e^x=e^x
-            if (node->left->type == NodeType::VARIABLE)
-                return;
-
             // (e^u)' = e^u * u'
             auto u2 = Clone(node->left);
             q.emplace(*u2);
diff --git a/src/tomsolver/diff.cpp b/src/tomsolver/diff.cpp
index a83450e..b3ef1bf 100644
--- a/src/tomsolver/diff.cpp
+++ b/src/tomsolver/diff.cpp
@@ -241,10 +241,6 @@ public:
                 return;
             }
 
-            // e^x=e^x
-            if (node->left->type == NodeType::VARIABLE)
-                return;
-
             // (e^u)' = e^u * u'
             auto u2 = Clone(node->left);
             q.emplace(*u2);
-- 
2.43.0


From 540dc6f3e1a316f8257f6445f9573ea759a7c739 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 03/28] fix: EachDivide divides the first matrix by the second

It divided the second matrix by itself and so always returned ones.
---
 single/include/tomsolver/tomsolver.h | 2 +-
 src/tomsolver/mat.cpp                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index fcc5016..5c79649 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2267,7 +2267,7 @@ inline Mat operator*(double k, const Mat &mat) noexcept {
 inline Mat EachDivide(const Mat &a, const Mat &b) noexcept {
     assert(a.rows == b.rows);
     assert(a.cols == b.cols);
-    return {a.rows, b.cols, b.data / b.data};
+    return {a.rows, b.cols, a.data / b.data};
 }
 
 inline bool IsZero(const Mat &mat) noexcept {
diff --git a/src/tomsolver/mat.cpp b/src/tomsolver/mat.cpp
index ee1e783..82532af 100644
--- a/src/tomsolver/mat.cpp
+++ b/src/tomsolver/mat.cpp
@@ -270,7 +270,7 @@ Mat operator*(double k, const Mat &mat) noexcept {
 Mat EachDivide(const Mat &a, const Mat &b) noexcept {
     assert(a.rows == b.rows);
     assert(a.cols == b.cols);
-    return {a.rows, b.cols, b.data / b.data};
+    return {a.rows, b.cols, a.data / b.data};
 }
 
 bool IsZero(const Mat &mat) noexcept {
-- 
2.43.0


From 74e32be79501e45f7ec4f72b9f975f49bbfffa19 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:33:58 +0000
Subject: [PATCH 04/28] fix: Jacobian lets the exception of Diff through

Diff throws runtime_error for expressions that contain & | or %. Jacobian
was noexcept, so Jacobian() and Solve() on such equations terminated the
process instead of reporting the error.
---
 single/include/tomsolver/tomsolver.h | 10 +++++++---
 src/tomsolver/symmat.cpp             |  2 +-
 src/tomsolver/symmat.h               |  8 ++++++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 5c79649..f0b72bd 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2782,7 +2782,7 @@ protected:
     int rows, cols;
     std::unique_ptr<std::valarray<Node>> data;
 
-    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 };
 
 class SymVec : public SymMat {
@@ -2807,7 +2807,11 @@ public:
     const Node &operator[](std::size_t index) const noexcept;
 };
 
-inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+/**
+ * 求equations对vars的雅可比矩阵。
+ * @exception runtime_error 如果表达式内包含AND(&) OR(|) MOD(%)这类不能求导的运算符，则抛出异常
+ */
+inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 
 inline std::ostream &operator<<(std::ostream &out, const SymMat &symMat) noexcept;
 
@@ -4584,7 +4588,7 @@ inline const Node &SymVec::operator[](std::size_t index) const noexcept {
     return (*data)[index];
 }
 
-inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept {
+inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) {
     int rows = equations.rows;
     int cols = static_cast<int>(vars.size());
     SymMat ja(rows, cols);
diff --git a/src/tomsolver/symmat.cpp b/src/tomsolver/symmat.cpp
index 08ecb46..e9750d9 100644
--- a/src/tomsolver/symmat.cpp
+++ b/src/tomsolver/symmat.cpp
@@ -204,7 +204,7 @@ const Node &SymVec::operator[](std::size_t index) const noexcept {
     return (*data)[index];
 }
 
-SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept {
+SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) {
     int rows = equations.rows;
     int cols = static_cast<int>(vars.size());
     SymMat ja(rows, cols);
diff --git a/src/tomsolver/symmat.h b/src/tomsolver/symmat.h
index 9f4bda8..60d4642 100644
--- a/src/tomsolver/symmat.h
+++ b/src/tomsolver/symmat.h
@@ -97,7 +97,7 @@ protected:
     int rows, cols;
     std::unique_ptr<std::valarray<Node>> data;
 
-    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 };
 
 class SymVec : public SymMat {
@@ -122,7 +122,11 @@ public:
     const Node &operator[](std::size_t index) const noexcept;
 };
 
-SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+/**
+ * 求equations对vars的雅可比矩阵。
+ * @exception runtime_error 如果表达式内包含AND(&) OR(|) MOD(%)这类不能求导的运算符，则抛出异常
+ */
+SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 
 std::ostream &operator<<(std::ostream &out, const SymMat &symMat) noexcept;
 
-- 
2.43.0


From 116990c0711a66734f876f7591cedfc7780d108d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 05/28] fix: modulo by zero is an invalid number instead of
 SIGFPE

x % 0 (and INT_MIN % -1) raised SIGFPE and killed the process, also from
Simplify. The result is now nan, which is reported as MathError when
throwOnInvalidValue is set.
---
 single/include/tomsolver/tomsolver.h | 5 ++++-
 src/tomsolver/math_operator.cpp      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index f0b72bd..8f0492c 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -1949,7 +1949,10 @@ inline double Calc(MathOperator op, double v1, double v2) {
         break;
 
     case MathOperator::MATH_MOD: //%
-        ret = (int)v1 % (int)v2;
+        // 模0没有意义，结果为nan；模-1恒为0，单独处理是因为INT_MIN % -1会溢出
+        if ((int)v2 != 0) {
+            ret = (int)v2 == -1 ? 0 : (int)v1 % (int)v2;
+        }
         break;
     case MathOperator::MATH_AND: //&
         ret = (int)v1 & (int)v2;
diff --git a/src/tomsolver/math_operator.cpp b/src/tomsolver/math_operator.cpp
index 0872c01..8fae25c 100644
--- a/src/tomsolver/math_operator.cpp
+++ b/src/tomsolver/math_operator.cpp
@@ -314,7 +314,10 @@ double Calc(MathOperator op, double v1, double v2) {
         break;
 
     case MathOperator::MATH_MOD: //%
-        ret = (int)v1 % (int)v2;
+        // 模0没有意义，结果为nan；模-1恒为0，单独处理是因为INT_MIN % -1会溢出
+        if ((int)v2 != 0) {
+            ret = (int)v2 == -1 ? 0 : (int)v1 % (int)v2;
+        }
         break;
     case MathOperator::MATH_AND: //&
         ret = (int)v1 & (int)v2;
-- 
2.43.0


From 36b97ce86d3c1e7b74116770d44b1160af85916a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 06/28] fix: Simplify keeps constant subexpressions that have
 no valid value

Folding a constant such as 1/0, log(-3) or sqrt(-1) threw MathError out of
the noexcept Simplify and terminated the process; Diff("x/0") and
Diff("(-3)^x") died the same way. Such a subexpression now stays as it is
and is reported when the expression is evaluated.
---
 single/include/tomsolver/tomsolver.h | 19 +++++++++++++++++--
 src/tomsolver/simplify.cpp           | 18 ++++++++++++++++--
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 8f0492c..e456f81 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3005,6 +3005,17 @@ public:
         SimplifyNode(NodeImpl &node) : node(node), isLeftChild(!node.parent || node.parent->left.get() == &node) {}
     };
 
+    // 计算op(v1, v2)的值，成功则返回true。
+    // 如果结果是无效值(例如1/0)且Config要求抛出异常，则返回false，此时调用者应保留原表达式。
+    static bool TryCalc(MathOperator op, double v1, double v2, double &ret) noexcept {
+        try {
+            ret = tomsolver::Calc(op, v1, v2);
+            return true;
+        } catch (const MathError &) {
+            return false;
+        }
+    }
+
     // 对单节点n进行化简。
     static void SimplifySingleNode(std::unique_ptr<NodeImpl> &n) noexcept {
         auto parent = n->parent;
@@ -3012,8 +3023,10 @@ public:
         // 对于1元运算符，且儿子是数字的，直接计算出来
         case 1:
             if (n->left->type == NodeType::NUMBER) {
+                if (!TryCalc(n->op, n->left->value, 0, n->value)) {
+                    return;
+                }
                 n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, 0);
                 n->op = MathOperator::MATH_NULL;
                 n->left = nullptr;
             }
@@ -3023,8 +3036,10 @@ public:
         case 2:
             // 儿子是数字的，直接计算出来
             if (n->left->type == NodeType::NUMBER && n->right->type == NodeType::NUMBER) {
+                if (!TryCalc(n->op, n->left->value, n->right->value, n->value)) {
+                    return;
+                }
                 n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, n->right->value);
                 n->op = MathOperator::MATH_NULL;
                 n->left = nullptr;
                 n->right = nullptr;
diff --git a/src/tomsolver/simplify.cpp b/src/tomsolver/simplify.cpp
index 98a9558..e53e975 100644
--- a/src/tomsolver/simplify.cpp
+++ b/src/tomsolver/simplify.cpp
@@ -1,4 +1,5 @@
 #include "simplify.h"
+#include "error_type.h"
 #include "math_operator.h"
 #include "node.h"
 
@@ -20,6 +21,15 @@ public:
         SimplifyNode(NodeImpl &node) : node(node), isLeftChild(!node.parent || node.parent->left.get() == &node) {}
     };
 
+    // 计算op(v1, v2)的值，成功则返回true。
+    // 如果结果是无效值(例如1/0)且Config要求抛出异常，则返回false，此时调用者应保留原表达式。
+    static bool TryCalc(MathOperator op, double v1, double v2, double &ret) noexcept {
+        try {
+            ret = tomsolver::Calc(op, v1, v2);
+            return true;
+        } catch (const MathError &) { return false; }
+    }
+
     // 对单节点n进行化简。
     static void SimplifySingleNode(std::unique_ptr<NodeImpl> &n) noexcept {
         auto parent = n->parent;
@@ -27,8 +37,10 @@ public:
         // 对于1元运算符，且儿子是数字的，直接计算出来
         case 1:
             if (n->left->type == NodeType::NUMBER) {
+                if (!TryCalc(n->op, n->left->value, 0, n->value)) {
+                    return;
+                }
                 n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, 0);
                 n->op = MathOperator::MATH_NULL;
                 n->left = nullptr;
             }
@@ -38,8 +50,10 @@ public:
         case 2:
             // 儿子是数字的，直接计算出来
             if (n->left->type == NodeType::NUMBER && n->right->type == NodeType::NUMBER) {
+                if (!TryCalc(n->op, n->left->value, n->right->value, n->value)) {
+                    return;
+                }
                 n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, n->right->value);
                 n->op = MathOperator::MATH_NULL;
                 n->left = nullptr;
                 n->right = nullptr;
-- 
2.43.0


From ae4ec27b9cd4c37448b77e3486f77659ff55d95f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:36:23 +0000
Subject: [PATCH 07/28] fix: Parse rejects empty parentheses, blank input and
 misplaced operators

---
 single/include/tomsolver/tomsolver.h | 26 +++++++++++++++++++++++++-
 src/tomsolver/parse.cpp              | 26 +++++++++++++++++++++++++-
 2 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index e456f81..439e7cf 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3453,7 +3453,7 @@ namespace internal {
 inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
     if (content.empty()) {
-        throw SingleParseError(0, 0, "empty input", content);
+        throw SingleParseError(0, 0, content, "empty input");
     }
 
     auto iter = content.begin(), nameIter = iter;
@@ -3513,6 +3513,11 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
     tryComfirmToken();
 
+    // 全是空白字符
+    if (ret.empty()) {
+        throw SingleParseError(0, 0, content, "empty input");
+    }
+
     return ret;
 }
 
@@ -3521,6 +3526,10 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
     int parenthesisBalance = 0;
     std::stack<Token> tokenStack;
 
+    // 当前位置是否必须出现操作数（表达式开头、左括号之后、运算符之后）。此时不允许出现二元运算符、右括号，也不允许结束。
+    bool operandExpected = true;
+    StringView content; // 整行内容
+
     auto popToken = [&tokenStack] {
         auto r = std::move(tokenStack.top());
         tokenStack.pop();
@@ -3530,11 +3539,13 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
     while (!inOrder.empty()) {
         auto f = std::move(inOrder.front());
         inOrder.pop_front();
+        content = f.content;
 
         switch (f.node->type) {
         // 数字直接入栈
         case NodeType::NUMBER:
         case NodeType::VARIABLE:
+            operandExpected = false;
             postOrder.emplace_back(std::move(f));
             continue;
         case NodeType::OPERATOR:
@@ -3556,6 +3567,10 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
             if (parenthesisBalance == 0) {
                 throw SingleParseError(f.line, f.pos, f.content, "Parenthesis not match: \"", f.s, "\"");
             }
+            parenthesisBalance--;
+            if (operandExpected) {
+                throw SingleParseError(f.line, f.pos, f.content, "Operand expected before: \"", f.s, "\"");
+            }
             for (auto token = popToken(); token.node->op != MathOperator::MATH_LEFT_PARENTHESIS; token = popToken()) {
                 postOrder.emplace_back(std::move(token));
             }
@@ -3570,6 +3585,9 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
 
         default:
             // 不是括号也不是正负号
+            if (operandExpected && !IsFunction(f.node->op)) {
+                throw SingleParseError(f.line, f.pos, f.content, "Operand expected before: \"", f.s, "\"");
+            }
             if (!tokenStack.empty()) {
                 auto compare =
                     IsLeft2Right(f.node->op)
@@ -3592,9 +3610,15 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
             break;
         }
 
+        operandExpected = true;
         tokenStack.push(std::move(f)); // 高优先级已全部挤出，当前符号入栈
     }
 
+    if (operandExpected) {
+        auto pos = static_cast<int>(std::distance(content.begin(), content.end()));
+        throw SingleParseError(0, pos, content, "Operand expected at the end");
+    }
+
     // 剩下的元素全部入栈
     while (!tokenStack.empty()) {
         auto token = popToken();
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 509ea18..4c7724e 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -142,7 +142,7 @@ namespace internal {
 std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
     if (content.empty()) {
-        throw SingleParseError(0, 0, "empty input", content);
+        throw SingleParseError(0, 0, content, "empty input");
     }
 
     auto iter = content.begin(), nameIter = iter;
@@ -202,6 +202,11 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
     tryComfirmToken();
 
+    // 全是空白字符
+    if (ret.empty()) {
+        throw SingleParseError(0, 0, content, "empty input");
+    }
+
     return ret;
 }
 
@@ -210,6 +215,10 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
     int parenthesisBalance = 0;
     std::stack<Token> tokenStack;
 
+    // 当前位置是否必须出现操作数（表达式开头、左括号之后、运算符之后）。此时不允许出现二元运算符、右括号，也不允许结束。
+    bool operandExpected = true;
+    StringView content; // 整行内容
+
     auto popToken = [&tokenStack] {
         auto r = std::move(tokenStack.top());
         tokenStack.pop();
@@ -219,11 +228,13 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
     while (!inOrder.empty()) {
         auto f = std::move(inOrder.front());
         inOrder.pop_front();
+        content = f.content;
 
         switch (f.node->type) {
         // 数字直接入栈
         case NodeType::NUMBER:
         case NodeType::VARIABLE:
+            operandExpected = false;
             postOrder.emplace_back(std::move(f));
             continue;
         case NodeType::OPERATOR:
@@ -245,6 +256,10 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
             if (parenthesisBalance == 0) {
                 throw SingleParseError(f.line, f.pos, f.content, "Parenthesis not match: \"", f.s, "\"");
             }
+            parenthesisBalance--;
+            if (operandExpected) {
+                throw SingleParseError(f.line, f.pos, f.content, "Operand expected before: \"", f.s, "\"");
+            }
             for (auto token = popToken(); token.node->op != MathOperator::MATH_LEFT_PARENTHESIS; token = popToken()) {
                 postOrder.emplace_back(std::move(token));
             }
@@ -259,6 +274,9 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
 
         default:
             // 不是括号也不是正负号
+            if (operandExpected && !IsFunction(f.node->op)) {
+                throw SingleParseError(f.line, f.pos, f.content, "Operand expected before: \"", f.s, "\"");
+            }
             if (!tokenStack.empty()) {
                 auto compare =
                     IsLeft2Right(f.node->op)
@@ -281,9 +299,15 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
             break;
         }
 
+        operandExpected = true;
         tokenStack.push(std::move(f)); // 高优先级已全部挤出，当前符号入栈
     }
 
+    if (operandExpected) {
+        auto pos = static_cast<int>(std::distance(content.begin(), content.end()));
+        throw SingleParseError(0, pos, content, "Operand expected at the end");
+    }
+
     // 剩下的元素全部入栈
     while (!tokenStack.empty()) {
         auto token = popToken();
-- 
2.43.0


From 46d0e3b143dff259bb1bffa09c985bb9e2218345 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 08/28] fix: Parse understands asin, acos and atan, the names
 ToString prints

---
 single/include/tomsolver/tomsolver.h | 3 +++
 src/tomsolver/parse.cpp              | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 439e7cf..42ca6a4 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3402,10 +3402,13 @@ inline MathOperator Str2Function(internal::StringView s) noexcept {
     case "tan"_fnv1a:
         return MathOperator::MATH_TAN;
     case "arcsin"_fnv1a:
+    case "asin"_fnv1a:
         return MathOperator::MATH_ARCSIN;
     case "arccos"_fnv1a:
+    case "acos"_fnv1a:
         return MathOperator::MATH_ARCCOS;
     case "arctan"_fnv1a:
+    case "atan"_fnv1a:
         return MathOperator::MATH_ARCTAN;
     case "sqrt"_fnv1a:
         return MathOperator::MATH_SQRT;
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 4c7724e..4b7ce82 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -91,10 +91,13 @@ MathOperator Str2Function(internal::StringView s) noexcept {
     case "tan"_fnv1a:
         return MathOperator::MATH_TAN;
     case "arcsin"_fnv1a:
+    case "asin"_fnv1a:
         return MathOperator::MATH_ARCSIN;
     case "arccos"_fnv1a:
+    case "acos"_fnv1a:
         return MathOperator::MATH_ARCCOS;
     case "arctan"_fnv1a:
+    case "atan"_fnv1a:
         return MathOperator::MATH_ARCTAN;
     case "sqrt"_fnv1a:
         return MathOperator::MATH_SQRT;
-- 
2.43.0


From 3c70eeeed0927716c519b0ccda192ffa2c5c2fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 09/28] fix: Parse understands the signed exponents that
 ToString prints

---
 single/include/tomsolver/tomsolver.h | 20 +++++++++++++++++++-
 src/tomsolver/parse.cpp              | 20 +++++++++++++++++++-
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 42ca6a4..2724618 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3496,8 +3496,26 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
         }
     };
 
+    // 当前字符是否为科学计数法指数部分的正负号，例如1e-5、2.5E+16
+    auto isExponentSign = [&iter, &nameIter, &content] {
+        if ((*iter != '+' && *iter != '-') || std::distance(nameIter, iter) < 2) {
+            return false;
+        }
+        auto e = iter - 1, next = iter + 1;
+        return (*e == 'e' || *e == 'E') && next != content.end() && isdigit(static_cast<unsigned char>(*next)) &&
+               std::any_of(nameIter, e,
+                           [](unsigned char c) {
+                               return isdigit(c);
+                           }) &&
+               std::all_of(nameIter, e, [](unsigned char c) {
+                   return isdigit(c) || c == '.';
+               });
+    };
+
     while (iter != content.end()) {
-        if (IsBasicOperator(*iter)) {
+        if (isExponentSign()) {
+            ++iter;
+        } else if (IsBasicOperator(*iter)) {
             tryComfirmToken();
             auto unaryOp = ret.empty() || (ret.back().node->type == NodeType::OPERATOR &&
                                            ret.back().node->op != MathOperator::MATH_RIGHT_PARENTHESIS);
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 4b7ce82..ac513d5 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -185,8 +185,26 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
         }
     };
 
+    // 当前字符是否为科学计数法指数部分的正负号，例如1e-5、2.5E+16
+    auto isExponentSign = [&iter, &nameIter, &content] {
+        if ((*iter != '+' && *iter != '-') || std::distance(nameIter, iter) < 2) {
+            return false;
+        }
+        auto e = iter - 1, next = iter + 1;
+        return (*e == 'e' || *e == 'E') && next != content.end() && isdigit(static_cast<unsigned char>(*next)) &&
+               std::any_of(nameIter, e,
+                           [](unsigned char c) {
+                               return isdigit(c);
+                           }) &&
+               std::all_of(nameIter, e, [](unsigned char c) {
+                   return isdigit(c) || c == '.';
+               });
+    };
+
     while (iter != content.end()) {
-        if (IsBasicOperator(*iter)) {
+        if (isExponentSign()) {
+            ++iter;
+        } else if (IsBasicOperator(*iter)) {
             tryComfirmToken();
             auto unaryOp = ret.empty() || (ret.back().node->type == NodeType::OPERATOR &&
                                            ret.back().node->op != MathOperator::MATH_RIGHT_PARENTHESIS);
-- 
2.43.0


From f4af01e304263b2e270c335352575bf2588297a9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 10/28] fix: compound assignment of an expression to itself (n
 += n)

---
 single/include/tomsolver/tomsolver.h | 26 ++++++++++++++++----------
 src/tomsolver/node.h                 | 26 ++++++++++++++++----------
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 2724618..2d1a607 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -871,6 +871,17 @@ inline Node BinaryOperator(MathOperator op, T1 &&n1, T2 &&n2) noexcept {
     return ret;
 }
 
+/**
+ * 复合赋值运算。n2可能与n1是同一个节点(例如n += n)，所以先取得n2，再移动n1。
+ */
+template <typename T>
+inline Node &CompoundAssign(MathOperator op, Node &n1, T &&n2) noexcept {
+    Node right;
+    CopyOrMoveTo(nullptr, right, std::forward<T>(n2));
+    n1 = BinaryOperator(op, std::move(n1), std::move(right));
+    return n1;
+}
+
 /**
  * 新建一个运算符节点。
  */
@@ -925,8 +936,7 @@ inline SfinaeNode<T1, T2> operator+(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator+=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_ADD, std::move(n1), std::forward<T>(n2));
-    return n1;
+    return internal::CompoundAssign(MathOperator::MATH_ADD, n1, std::forward<T>(n2));
 }
 
 template <typename T1, typename T2>
@@ -946,8 +956,7 @@ inline SfinaeNode<T> operator+(T &&n1) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator-=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_SUB, std::move(n1), std::forward<T>(n2));
-    return n1;
+    return internal::CompoundAssign(MathOperator::MATH_SUB, n1, std::forward<T>(n2));
 }
 
 template <typename T1, typename T2>
@@ -957,8 +966,7 @@ inline SfinaeNode<T1, T2> operator*(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator*=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_MULTIPLY, std::move(n1), std::forward<T>(n2));
-    return n1;
+    return internal::CompoundAssign(MathOperator::MATH_MULTIPLY, n1, std::forward<T>(n2));
 }
 
 template <typename T1, typename T2>
@@ -968,8 +976,7 @@ inline SfinaeNode<T1, T2> operator/(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator/=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_DIVIDE, std::move(n1), std::forward<T>(n2));
-    return n1;
+    return internal::CompoundAssign(MathOperator::MATH_DIVIDE, n1, std::forward<T>(n2));
 }
 
 template <typename T1, typename T2>
@@ -979,8 +986,7 @@ inline SfinaeNode<T1, T2> operator^(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 inline SfinaeNode<T> &operator^=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_POWER, std::move(n1), std::forward<T>(n2));
-    return n1;
+    return internal::CompoundAssign(MathOperator::MATH_POWER, n1, std::forward<T>(n2));
 }
 
 } // namespace tomsolver
diff --git a/src/tomsolver/node.h b/src/tomsolver/node.h
index 353af17..e95ed15 100644
--- a/src/tomsolver/node.h
+++ b/src/tomsolver/node.h
@@ -184,6 +184,17 @@ Node BinaryOperator(MathOperator op, T1 &&n1, T2 &&n2) noexcept {
     return ret;
 }
 
+/**
+ * 复合赋值运算。n2可能与n1是同一个节点(例如n += n)，所以先取得n2，再移动n1。
+ */
+template <typename T>
+Node &CompoundAssign(MathOperator op, Node &n1, T &&n2) noexcept {
+    Node right;
+    CopyOrMoveTo(nullptr, right, std::forward<T>(n2));
+    n1 = BinaryOperator(op, std::move(n1), std::move(right));
+    return n1;
+}
+
 /**
  * 新建一个运算符节点。
  */
@@ -238,8 +249,7 @@ SfinaeNode<T1, T2> operator+(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator+=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_ADD, std::move(n1), std::forward<T>(n2));
-    return n1;
+    return internal::CompoundAssign(MathOperator::MATH_ADD, n1, std::forward<T>(n2));
 }
 
 template <typename T1, typename T2>
@@ -259,8 +269,7 @@ SfinaeNode<T> operator+(T &&n1) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator-=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_SUB, std::move(n1), std::forward<T>(n2));
-    return n1;
+    return internal::CompoundAssign(MathOperator::MATH_SUB, n1, std::forward<T>(n2));
 }
 
 template <typename T1, typename T2>
@@ -270,8 +279,7 @@ SfinaeNode<T1, T2> operator*(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator*=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_MULTIPLY, std::move(n1), std::forward<T>(n2));
-    return n1;
+    return internal::CompoundAssign(MathOperator::MATH_MULTIPLY, n1, std::forward<T>(n2));
 }
 
 template <typename T1, typename T2>
@@ -281,8 +289,7 @@ SfinaeNode<T1, T2> operator/(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator/=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_DIVIDE, std::move(n1), std::forward<T>(n2));
-    return n1;
+    return internal::CompoundAssign(MathOperator::MATH_DIVIDE, n1, std::forward<T>(n2));
 }
 
 template <typename T1, typename T2>
@@ -292,8 +299,7 @@ SfinaeNode<T1, T2> operator^(T1 &&n1, T2 &&n2) noexcept {
 
 template <typename T>
 SfinaeNode<T> &operator^=(Node &n1, T &&n2) noexcept {
-    n1 = internal::BinaryOperator(MathOperator::MATH_POWER, std::move(n1), std::forward<T>(n2));
-    return n1;
+    return internal::CompoundAssign(MathOperator::MATH_POWER, n1, std::forward<T>(n2));
 }
 
 } // namespace tomsolver
-- 
2.43.0


From 57b22b13edbb56b7cb9084c2958c47a2350846c3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 11/28] fix: very long names overflow the stack in
 VarNameIsLegal

---
 single/include/tomsolver/tomsolver.h |  7 ++++++-
 src/tomsolver/node.cpp               | 10 ++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 2d1a607..b543440 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -1636,7 +1636,12 @@ inline Node Op(MathOperator op) {
 }
 
 inline bool VarNameIsLegal(const std::string &varname) noexcept {
-    return std::regex_match(varname.begin(), varname.end(), std::regex{R"((?=\w)\D\w*)"});
+    // 不使用std::regex，因为其递归实现对于很长的名字会栈溢出
+    auto isWord = [](unsigned char c) {
+        return std::isalnum(c) || c == '_';
+    };
+    return !varname.empty() && !std::isdigit(static_cast<unsigned char>(varname.front())) &&
+           std::all_of(varname.begin(), varname.end(), isWord);
 }
 
 inline Node Var(std::string varname) {
diff --git a/src/tomsolver/node.cpp b/src/tomsolver/node.cpp
index 2bc8831..fab0857 100644
--- a/src/tomsolver/node.cpp
+++ b/src/tomsolver/node.cpp
@@ -3,13 +3,14 @@
 #include "config.h"
 #include "math_operator.h"
 
+#include <algorithm>
 #include <cassert>
+#include <cctype>
 #include <forward_list>
 #include <functional>
 #include <iostream>
 #include <limits>
 #include <memory>
-#include <regex>
 #include <stack>
 #include <string>
 #include <type_traits>
@@ -661,7 +662,12 @@ Node Op(MathOperator op) {
 }
 
 bool VarNameIsLegal(const std::string &varname) noexcept {
-    return std::regex_match(varname.begin(), varname.end(), std::regex{R"((?=\w)\D\w*)"});
+    // 不使用std::regex，因为其递归实现对于很长的名字会栈溢出
+    auto isWord = [](unsigned char c) {
+        return std::isalnum(c) || c == '_';
+    };
+    return !varname.empty() && !std::isdigit(static_cast<unsigned char>(varname.front())) &&
+           std::all_of(varname.begin(), varname.end(), isWord);
 }
 
 Node Var(std::string varname) {
-- 
2.43.0


From 9dd53b3057ef3622ea8ec3637a746d7e885d54b5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 12/28] fix: SolveLinear counts the pivots, and checks every
 row without one

---
 single/include/tomsolver/tomsolver.h | 30 ++++++++++++++--------------
 src/tomsolver/linear.cpp             | 30 ++++++++++++++--------------
 2 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index b543440..b403d27 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2510,7 +2510,7 @@ inline Vec SolveLinear(Mat A, Vec b) {
     int rows = A.Rows(); // 行数
     int cols = rows;     // 列数=未知数个数
 
-    int RankA = rows, RankAb = rows; // 初始值
+    int rank = 0; // 系数矩阵的秩，即主元个数
 
     assert(rows == b.Rows()); // A行数不等于b行数
 
@@ -2558,22 +2558,14 @@ inline Vec SolveLinear(Mat A, Vec b) {
             TrueRowNumber[y] = x; // 补齐方程时 当前行应换到x行
         }
 
-        if (x == cols) // 本行全为0
+        if (x == cols) // 本行及以下各行全为0
         {
-            RankA = y;
-            if (std::abs(b[y]) < Config::Get().epsilon) {
-                RankAb = y;
-            }
-
-            if (RankA != RankAb) {
-                // 奇异，且系数矩阵及增广矩阵秩不相等->无解
-                throw MathError(ErrorType::ERROR_SINGULAR_MATRIX);
-            } else {
-                // 跳出for，得到特解
-                break;
-            }
+            // 跳出for，得到特解
+            break;
         }
 
+        rank++;
+
         // 主对角线化为1
         auto ratioY = A.Value(y, x);
         // y行第j个->第cols个
@@ -2592,6 +2584,14 @@ inline Vec SolveLinear(Mat A, Vec b) {
         }
     }
 
+    // 没有主元的行，系数全为0
+    for (auto row = rank; row < rows; row++) {
+        if (!(std::abs(b[row]) < Config::Get().epsilon)) {
+            // 奇异，且系数矩阵及增广矩阵秩不相等->无解
+            throw MathError(ErrorType::ERROR_SINGULAR_MATRIX);
+        }
+    }
+
     bool bIndeterminateEquation = false; // 设置此变量是因为后面rows将=cols，标记以判断是否为不定方程组
 
     // 若为不定方程组，空缺行全填0继续运算
@@ -2617,7 +2617,7 @@ inline Vec SolveLinear(Mat A, Vec b) {
         ret[i] = b[i] - (vec.size() ? vec.sum() : 0);
     }
 
-    if (RankA < cols && RankA == RankAb) {
+    if (rank < cols) {
         if (bIndeterminateEquation) {
             if (!Config::Get().allowIndeterminateEquation) {
                 throw MathError(ErrorType::ERROR_INDETERMINATE_EQUATION,
diff --git a/src/tomsolver/linear.cpp b/src/tomsolver/linear.cpp
index 2c680db..2c7e8fe 100644
--- a/src/tomsolver/linear.cpp
+++ b/src/tomsolver/linear.cpp
@@ -25,7 +25,7 @@ Vec SolveLinear(Mat A, Vec b) {
     int rows = A.Rows(); // 行数
     int cols = rows;     // 列数=未知数个数
 
-    int RankA = rows, RankAb = rows; // 初始值
+    int rank = 0; // 系数矩阵的秩，即主元个数
 
     assert(rows == b.Rows()); // A行数不等于b行数
 
@@ -73,22 +73,14 @@ Vec SolveLinear(Mat A, Vec b) {
             TrueRowNumber[y] = x; // 补齐方程时 当前行应换到x行
         }
 
-        if (x == cols) // 本行全为0
+        if (x == cols) // 本行及以下各行全为0
         {
-            RankA = y;
-            if (std::abs(b[y]) < Config::Get().epsilon) {
-                RankAb = y;
-            }
-
-            if (RankA != RankAb) {
-                // 奇异，且系数矩阵及增广矩阵秩不相等->无解
-                throw MathError(ErrorType::ERROR_SINGULAR_MATRIX);
-            } else {
-                // 跳出for，得到特解
-                break;
-            }
+            // 跳出for，得到特解
+            break;
         }
 
+        rank++;
+
         // 主对角线化为1
         auto ratioY = A.Value(y, x);
         // y行第j个->第cols个
@@ -107,6 +99,14 @@ Vec SolveLinear(Mat A, Vec b) {
         }
     }
 
+    // 没有主元的行，系数全为0
+    for (auto row = rank; row < rows; row++) {
+        if (!(std::abs(b[row]) < Config::Get().epsilon)) {
+            // 奇异，且系数矩阵及增广矩阵秩不相等->无解
+            throw MathError(ErrorType::ERROR_SINGULAR_MATRIX);
+        }
+    }
+
     bool bIndeterminateEquation = false; // 设置此变量是因为后面rows将=cols，标记以判断是否为不定方程组
 
     // 若为不定方程组，空缺行全填0继续运算
@@ -132,7 +132,7 @@ Vec SolveLinear(Mat A, Vec b) {
         ret[i] = b[i] - (vec.size() ? vec.sum() : 0);
     }
 
-    if (RankA < cols && RankA == RankAb) {
+    if (rank < cols) {
         if (bIndeterminateEquation) {
             if (!Config::Get().allowIndeterminateEquation) {
                 throw MathError(ErrorType::ERROR_INDETERMINATE_EQUATION,
-- 
2.43.0


From d124611e2bcaefe90b02e72253649b267ad2f87d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 13/28] fix: GetMaxAbsRowIndex stays in range when the column
 contains NaN

---
 single/include/tomsolver/tomsolver.h | 2 +-
 src/tomsolver/mat.cpp                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index b403d27..4cc7412 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2300,7 +2300,7 @@ inline bool AllIsLessThan(const Mat &v1, const Mat &v2) noexcept {
 inline int GetMaxAbsRowIndex(const Mat &A, int rowStart, int rowEnd, int col) noexcept {
     std::valarray<double> temp =
         std::valarray<double>(A.Col(col)[std::slice(rowStart, rowEnd - rowStart + 1, 1)]).apply(std::abs);
-    auto ret = std::distance(std::begin(temp), std::find(std::begin(temp), std::end(temp), temp.max())) + rowStart;
+    auto ret = std::distance(std::begin(temp), std::max_element(std::begin(temp), std::end(temp))) + rowStart;
     return static_cast<int>(ret);
 }
 
diff --git a/src/tomsolver/mat.cpp b/src/tomsolver/mat.cpp
index 82532af..621dab3 100644
--- a/src/tomsolver/mat.cpp
+++ b/src/tomsolver/mat.cpp
@@ -289,7 +289,7 @@ bool AllIsLessThan(const Mat &v1, const Mat &v2) noexcept {
 int GetMaxAbsRowIndex(const Mat &A, int rowStart, int rowEnd, int col) noexcept {
     std::valarray<double> temp =
         std::valarray<double>(A.Col(col)[std::slice(rowStart, rowEnd - rowStart + 1, 1)]).apply(std::abs);
-    auto ret = std::distance(std::begin(temp), std::find(std::begin(temp), std::end(temp), temp.max())) + rowStart;
+    auto ret = std::distance(std::begin(temp), std::max_element(std::begin(temp), std::end(temp))) + rowStart;
     return static_cast<int>(ret);
 }
 
-- 
2.43.0


From ca12ba7bd123627e56876350404377afcfcc6c6e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 14/28] fix: Armijo line search stops when the function value
 is NaN

---
 single/include/tomsolver/tomsolver.h | 2 +-
 src/tomsolver/nonlinear.cpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 4cc7412..5d035e4 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3814,7 +3814,7 @@ inline double Armijo(const Vec &x, const Vec &d, std::function<Vec(Vec)> f, std:
 
         auto l = f(x_new).Norm2();
         auto r = (f(x).AsMat() + gamma * alpha * df(x).Transpose() * d).Norm2();
-        if (l <= r) // 检验条件
+        if (l <= r || alpha == 0) // 检验条件。若出现nan，检验条件永远不满足，alpha缩小到0为止
         {
             break;
         } else
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index 3943d94..15ba05d 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -23,7 +23,7 @@ double Armijo(const Vec &x, const Vec &d, std::function<Vec(Vec)> f, std::functi
 
         auto l = f(x_new).Norm2();
         auto r = (f(x).AsMat() + gamma * alpha * df(x).Transpose() * d).Norm2();
-        if (l <= r) // 检验条件
+        if (l <= r || alpha == 0) // 检验条件。若出现nan，检验条件永远不满足，alpha缩小到0为止
         {
             break;
         } else
-- 
2.43.0


From 1df58fb9b01153b0c8646a4aebca5d2602fe7abb Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 15/28] fix: LM method aborts when the numbers of equations and
 unknowns differ

---
 single/include/tomsolver/tomsolver.h | 10 ++++++++--
 src/tomsolver/nonlinear.cpp          | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 5d035e4..bb05489 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3955,6 +3955,10 @@ inline VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable)
             break;
         }
 
+        if (F.Rows() < n && !Config::Get().allowIndeterminateEquation) {
+            throw MathError(ErrorType::ERROR_INDETERMINATE_EQUATION);
+        }
+
         Vec FNew(n);   // 下一轮F
         Vec deltaq(n); // Δq
         while (1) {
@@ -3970,7 +3974,7 @@ inline VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable)
             // 牛顿法的 d=-(J+λI)^(-1)*F
 
             // 方向向量
-            Vec d = SolveLinear(J.Transpose() * J + mu * Mat(J.Rows(), J.Cols()).Ones(),
+            Vec d = SolveLinear(J.Transpose() * J + mu * Mat(n, n).Ones(),
                                 -(J.Transpose() * F).ToVec()); // 得到d
 
             if (Config::Get().logLevel >= LogLevel::TRACE) {
@@ -3985,7 +3989,9 @@ inline VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable)
                 },
                 [&](Vec v) -> Mat {
                     table.SetValues(v);
-                    return JaEqs.Clone().Subs(table).Calc().ToMat();
+                    Mat ja = JaEqs.Clone().Subs(table).Calc().ToMat();
+                    // 方程数量与未知量数量不等时，须转置才能使f与df'*d维数一致
+                    return ja.Rows() == ja.Cols() ? ja : ja.Transpose();
                 }); // 进行1维搜索得到alpha
 
             // double alpha = FindAlpha(q, d, std::bind(SixBarAngPosition, std::placeholders::_1, thetaCDKL, Hhit));
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index 15ba05d..712a285 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -164,6 +164,10 @@ VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable) {
             break;
         }
 
+        if (F.Rows() < n && !Config::Get().allowIndeterminateEquation) {
+            throw MathError(ErrorType::ERROR_INDETERMINATE_EQUATION);
+        }
+
         Vec FNew(n);   // 下一轮F
         Vec deltaq(n); // Δq
         while (1) {
@@ -179,7 +183,7 @@ VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable) {
             // 牛顿法的 d=-(J+λI)^(-1)*F
 
             // 方向向量
-            Vec d = SolveLinear(J.Transpose() * J + mu * Mat(J.Rows(), J.Cols()).Ones(),
+            Vec d = SolveLinear(J.Transpose() * J + mu * Mat(n, n).Ones(),
                                 -(J.Transpose() * F).ToVec()); // 得到d
 
             if (Config::Get().logLevel >= LogLevel::TRACE) {
@@ -194,7 +198,9 @@ VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable) {
                 },
                 [&](Vec v) -> Mat {
                     table.SetValues(v);
-                    return JaEqs.Clone().Subs(table).Calc().ToMat();
+                    Mat ja = JaEqs.Clone().Subs(table).Calc().ToMat();
+                    // 方程数量与未知量数量不等时，须转置才能使f与df'*d维数一致
+                    return ja.Rows() == ja.Cols() ? ja : ja.Transpose();
                 }); // 进行1维搜索得到alpha
 
             // double alpha = FindAlpha(q, d, std::bind(SixBarAngPosition, std::placeholders::_1, thetaCDKL, Hhit));
-- 
2.43.0


From bcb3e1528e5b2725960f85d2274be8e7c4bb4737 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 16/28] fix: ToString works during the initialization of global
 variables

---
 single/include/tomsolver/tomsolver.h | 15 ++++++---------
 src/tomsolver/config.cpp             | 15 ++++++---------
 2 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index bb05489..2b71712 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -478,20 +478,17 @@ inline std::string ToString(double value) noexcept;
 
 namespace tomsolver {
 
-namespace {
-
-static const std::tuple<const char *, std::regex> strategies[] = {
-    {"%.16e", std::regex{"\\.?0+(?=e)"}},
-    {"%.16f", std::regex{"\\.?0+(?=$)"}},
-};
-
-}
-
 inline std::string ToString(double value) noexcept {
     if (value == 0.0) {
         return "0";
     }
 
+    // 定义为局部静态变量，使得在其他全局变量的初始化过程中也可以使用
+    static const std::tuple<const char *, std::regex> strategies[] = {
+        {"%.16e", std::regex{"\\.?0+(?=e)"}},
+        {"%.16f", std::regex{"\\.?0+(?=$)"}},
+    };
+
     char buf[64];
 
     // 绝对值过大 或者 绝对值过小，应该使用科学计数法来表示
diff --git a/src/tomsolver/config.cpp b/src/tomsolver/config.cpp
index c642420..855d345 100644
--- a/src/tomsolver/config.cpp
+++ b/src/tomsolver/config.cpp
@@ -7,20 +7,17 @@
 
 namespace tomsolver {
 
-namespace {
-
-static const std::tuple<const char *, std::regex> strategies[] = {
-    {"%.16e", std::regex{"\\.?0+(?=e)"}},
-    {"%.16f", std::regex{"\\.?0+(?=$)"}},
-};
-
-}
-
 std::string ToString(double value) noexcept {
     if (value == 0.0) {
         return "0";
     }
 
+    // 定义为局部静态变量，使得在其他全局变量的初始化过程中也可以使用
+    static const std::tuple<const char *, std::regex> strategies[] = {
+        {"%.16e", std::regex{"\\.?0+(?=e)"}},
+        {"%.16f", std::regex{"\\.?0+(?=$)"}},
+    };
+
     char buf[64];
 
     // 绝对值过大 或者 绝对值过小，应该使用科学计数法来表示
-- 
2.43.0


From c1b11c8c1ff1f23acce3eab5d15392736f58c293 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 17/28] fix: Parse understands subnormal numbers, which
 ToString prints

---
 single/include/tomsolver/tomsolver.h | 18 ++++++++++--------
 src/tomsolver/parse.cpp              | 19 +++++++++++--------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 2b71712..763a8ec 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -5,9 +5,11 @@
 #include <array>
 #include <cassert>
 #include <cctype>
+#include <cerrno>
 #include <clocale>
 #include <cmath>
 #include <cstdio>
+#include <cstdlib>
 #include <cstring>
 #include <forward_list>
 #include <functional>
@@ -3478,14 +3480,14 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
             auto expStr = exp.toString();
             // 检验是否为浮点数
-            try {
-                std::size_t sz;
-                auto d = std::stod(expStr, &sz);
-                if (sz == expStr.size()) {
-                    token.node = Num(d);
-                    return;
-                }
-            } catch (...) {}
+            // 不使用std::stod，因为它把非规格化数(例如1e-310)视为越界。溢出的数仍然不接受
+            errno = 0;
+            char *end = nullptr;
+            auto d = std::strtod(expStr.c_str(), &end);
+            if (end == expStr.c_str() + expStr.size() && !(errno == ERANGE && std::abs(d) > 1.0)) {
+                token.node = Num(d);
+                return;
+            }
 
             auto op = Str2Function(exp);
             if (op != MathOperator::MATH_NULL) {
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index ac513d5..39fe4cb 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -6,6 +6,9 @@
 #include <algorithm>
 #include <cassert>
 #include <cctype>
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <functional>
 #include <iterator>
 #include <sstream>
@@ -159,14 +162,14 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
             auto expStr = exp.toString();
             // 检验是否为浮点数
-            try {
-                std::size_t sz;
-                auto d = std::stod(expStr, &sz);
-                if (sz == expStr.size()) {
-                    token.node = Num(d);
-                    return;
-                }
-            } catch (...) {}
+            // 不使用std::stod，因为它把非规格化数(例如1e-310)视为越界。溢出的数仍然不接受
+            errno = 0;
+            char *end = nullptr;
+            auto d = std::strtod(expStr.c_str(), &end);
+            if (end == expStr.c_str() + expStr.size() && !(errno == ERANGE && std::abs(d) > 1.0)) {
+                token.node = Num(d);
+                return;
+            }
 
             auto op = Str2Function(exp);
             if (op != MathOperator::MATH_NULL) {
-- 
2.43.0


From c1a25db7c692eb08c597b48bb390d567705b042b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:55 +0000
Subject: [PATCH 18/28] fix: error for an invalid name marks a place outside
 the text it quotes

The message quoted only the name, with the mark at the position of the name
in the whole text.
---
 single/include/tomsolver/tomsolver.h | 2 +-
 src/tomsolver/parse.cpp              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 763a8ec..8903a0e 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3499,7 +3499,7 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
             // 非运算符、数字、函数
             if (!VarNameIsLegal(expStr)) // 变量名首字符需为下划线或字母
             {
-                throw SingleParseError(token.line, token.pos, exp, "Invalid variable name: \"", exp, "\"");
+                throw SingleParseError(token.line, token.pos, content, "Invalid variable name: \"", exp, "\"");
             }
 
             token.node = Var(expStr);
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 39fe4cb..42b3c11 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -181,7 +181,7 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
             // 非运算符、数字、函数
             if (!VarNameIsLegal(expStr)) // 变量名首字符需为下划线或字母
             {
-                throw SingleParseError(token.line, token.pos, exp, "Invalid variable name: \"", exp, "\"");
+                throw SingleParseError(token.line, token.pos, content, "Invalid variable name: \"", exp, "\"");
             }
 
             token.node = Var(expStr);
-- 
2.43.0


From 3c879426f9e39c61737e50ce8122c81f3f7a23b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:01 +0000
Subject: [PATCH 19/28] fix: positions in parse error messages are grouped as
 the global locale says

---
 single/include/tomsolver/tomsolver.h | 2 ++
 src/tomsolver/parse.h                | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 8903a0e..9a96fcf 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -16,6 +16,7 @@
 #include <iostream>
 #include <iterator>
 #include <limits>
+#include <locale>
 #include <map>
 #include <math.h>
 #include <memory>
@@ -3254,6 +3255,7 @@ public:
     SingleParseError(int line, int pos, internal::StringView content, T &&...errInfo)
         : line(line), pos(pos), content(content) {
         std::stringstream ss;
+        ss.imbue(std::locale::classic()); // 全局locale可能会给数字加上分隔符
 
         ss << "[Parse Error] ";
         internal::append(ss, std::forward<T>(errInfo)...);
diff --git a/src/tomsolver/parse.h b/src/tomsolver/parse.h
index 64aed7e..83a5db6 100644
--- a/src/tomsolver/parse.h
+++ b/src/tomsolver/parse.h
@@ -3,6 +3,7 @@
 #include "node.h"
 
 #include <cstring>
+#include <locale>
 #include <sstream>
 #include <stdexcept>
 #include <utility>
@@ -73,6 +74,7 @@ public:
     SingleParseError(int line, int pos, internal::StringView content, T &&...errInfo)
         : line(line), pos(pos), content(content) {
         std::stringstream ss;
+        ss.imbue(std::locale::classic()); // 全局locale可能会给数字加上分隔符
 
         ss << "[Parse Error] ";
         internal::append(ss, std::forward<T>(errInfo)...);
-- 
2.43.0


From da15b4ad606e214133a0f7e0ae2e8180d3a28e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:12 +0000
Subject: [PATCH 20/28] fix: FindAlpha writes to standard output whatever the
 log level

---
 single/include/tomsolver/tomsolver.h | 4 +++-
 src/tomsolver/nonlinear.cpp          | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 9a96fcf..dc03ca2 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3849,7 +3849,9 @@ inline double FindAlpha(const Vec &x, const Vec &d, std::function<Vec(Vec)> f, d
 
         // cout << it<<"\t"<<alpha_new << endl;
         if (it++ > maxIter) {
-            cout << "FindAlpha: over iterator" << endl;
+            if (Config::Get().logLevel >= LogLevel::WARN) {
+                cout << "FindAlpha: over iterator" << endl;
+            }
             break;
         }
     }
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index 712a285..cecd73e 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -57,7 +57,9 @@ double FindAlpha(const Vec &x, const Vec &d, std::function<Vec(Vec)> f, double u
 
         // cout << it<<"\t"<<alpha_new << endl;
         if (it++ > maxIter) {
-            cout << "FindAlpha: over iterator" << endl;
+            if (Config::Get().logLevel >= LogLevel::WARN) {
+                cout << "FindAlpha: over iterator" << endl;
+            }
             break;
         }
     }
-- 
2.43.0


From d2f79bd6a15712aece50562beca04000e78ae3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 21/28] fix: variable names whose hash equals that of a
 function name are not functions

Str2Function only compares 64-bit FNV-1a hashes, so that Parse("hIxT3m0aagx")
gives sqrt. Compare the text too.
---
 single/include/tomsolver/tomsolver.h | 30 ++++++++++++++++++----------
 src/tomsolver/parse.cpp              | 30 ++++++++++++++++++----------
 2 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index dc03ca2..7869136 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3406,32 +3406,40 @@ inline MathOperator BaseOperatorCharToEnum(char c, bool unary) noexcept {
 }
 
 inline MathOperator Str2Function(internal::StringView s) noexcept {
+    // 不同的名字可能有相同的哈希值，所以还要比较字符串
+    auto match = [&s](internal::StringView name, MathOperator op) {
+        return s.toString() == name.toString() ? op : MathOperator::MATH_NULL;
+    };
+
     switch (fnv1a(s)) {
     case "sin"_fnv1a:
-        return MathOperator::MATH_SIN;
+        return match("sin", MathOperator::MATH_SIN);
     case "cos"_fnv1a:
-        return MathOperator::MATH_COS;
+        return match("cos", MathOperator::MATH_COS);
     case "tan"_fnv1a:
-        return MathOperator::MATH_TAN;
+        return match("tan", MathOperator::MATH_TAN);
     case "arcsin"_fnv1a:
+        return match("arcsin", MathOperator::MATH_ARCSIN);
     case "asin"_fnv1a:
-        return MathOperator::MATH_ARCSIN;
+        return match("asin", MathOperator::MATH_ARCSIN);
     case "arccos"_fnv1a:
+        return match("arccos", MathOperator::MATH_ARCCOS);
     case "acos"_fnv1a:
-        return MathOperator::MATH_ARCCOS;
+        return match("acos", MathOperator::MATH_ARCCOS);
     case "arctan"_fnv1a:
+        return match("arctan", MathOperator::MATH_ARCTAN);
     case "atan"_fnv1a:
-        return MathOperator::MATH_ARCTAN;
+        return match("atan", MathOperator::MATH_ARCTAN);
     case "sqrt"_fnv1a:
-        return MathOperator::MATH_SQRT;
+        return match("sqrt", MathOperator::MATH_SQRT);
     case "log"_fnv1a:
-        return MathOperator::MATH_LOG;
+        return match("log", MathOperator::MATH_LOG);
     case "log2"_fnv1a:
-        return MathOperator::MATH_LOG2;
+        return match("log2", MathOperator::MATH_LOG2);
     case "log10"_fnv1a:
-        return MathOperator::MATH_LOG10;
+        return match("log10", MathOperator::MATH_LOG10);
     case "exp"_fnv1a:
-        return MathOperator::MATH_EXP;
+        return match("exp", MathOperator::MATH_EXP);
     }
     return MathOperator::MATH_NULL;
 }
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 42b3c11..cdfb246 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -86,32 +86,40 @@ MathOperator BaseOperatorCharToEnum(char c, bool unary) noexcept {
 }
 
 MathOperator Str2Function(internal::StringView s) noexcept {
+    // 不同的名字可能有相同的哈希值，所以还要比较字符串
+    auto match = [&s](internal::StringView name, MathOperator op) {
+        return s.toString() == name.toString() ? op : MathOperator::MATH_NULL;
+    };
+
     switch (fnv1a(s)) {
     case "sin"_fnv1a:
-        return MathOperator::MATH_SIN;
+        return match("sin", MathOperator::MATH_SIN);
     case "cos"_fnv1a:
-        return MathOperator::MATH_COS;
+        return match("cos", MathOperator::MATH_COS);
     case "tan"_fnv1a:
-        return MathOperator::MATH_TAN;
+        return match("tan", MathOperator::MATH_TAN);
     case "arcsin"_fnv1a:
+        return match("arcsin", MathOperator::MATH_ARCSIN);
     case "asin"_fnv1a:
-        return MathOperator::MATH_ARCSIN;
+        return match("asin", MathOperator::MATH_ARCSIN);
     case "arccos"_fnv1a:
+        return match("arccos", MathOperator::MATH_ARCCOS);
     case "acos"_fnv1a:
-        return MathOperator::MATH_ARCCOS;
+        return match("acos", MathOperator::MATH_ARCCOS);
     case "arctan"_fnv1a:
+        return match("arctan", MathOperator::MATH_ARCTAN);
     case "atan"_fnv1a:
-        return MathOperator::MATH_ARCTAN;
+        return match("atan", MathOperator::MATH_ARCTAN);
     case "sqrt"_fnv1a:
-        return MathOperator::MATH_SQRT;
+        return match("sqrt", MathOperator::MATH_SQRT);
     case "log"_fnv1a:
-        return MathOperator::MATH_LOG;
+        return match("log", MathOperator::MATH_LOG);
     case "log2"_fnv1a:
-        return MathOperator::MATH_LOG2;
+        return match("log2", MathOperator::MATH_LOG2);
     case "log10"_fnv1a:
-        return MathOperator::MATH_LOG10;
+        return match("log10", MathOperator::MATH_LOG10);
     case "exp"_fnv1a:
-        return MathOperator::MATH_EXP;
+        return match("exp", MathOperator::MATH_EXP);
     }
     return MathOperator::MATH_NULL;
 }
-- 
2.43.0


From ee7db02295102eb7396d43ef19b4778a8d742211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:38 +0000
Subject: [PATCH 22/28] fix: numbers are printed and parsed as the C locale
 says

---
 single/include/tomsolver/tomsolver.h | 41 +++++++++++++++++++++++++---
 src/tomsolver/config.cpp             | 18 +++++++++++-
 src/tomsolver/config.h               |  9 ++++++
 src/tomsolver/parse.cpp              | 15 ++++++++--
 4 files changed, 75 insertions(+), 8 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 7869136..8ac2a65 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -477,6 +477,15 @@ struct Config {
 
 inline std::string ToString(double value) noexcept;
 
+namespace internal {
+
+/**
+ * C语言环境(setlocale)当前的小数点，例如德语中为逗号。
+ */
+inline std::string GetDecimalPoint() noexcept;
+
+} // namespace internal
+
 } // namespace tomsolver
 
 namespace tomsolver {
@@ -504,7 +513,23 @@ inline std::string ToString(double value) noexcept {
     auto &re = std::get<1>(strategy);
 
     snprintf(buf, sizeof(buf), fmt, value);
-    return std::regex_replace(buf, re, "");
+
+    // snprintf写出的小数点取决于C语言环境(setlocale)，这里统一为'.'
+    std::string s = buf;
+    auto decimalPoint = internal::GetDecimalPoint();
+    auto pos = s.find(decimalPoint);
+    if (pos != std::string::npos) {
+        s.replace(pos, decimalPoint.size(), ".");
+    }
+    return std::regex_replace(s, re, "");
+}
+
+inline std::string internal::GetDecimalPoint() noexcept {
+    // 不使用localeconv，因为它不是线程安全的
+    char buf[16];
+    snprintf(buf, sizeof(buf), "%.1f", 0.0);
+    std::string s = buf;
+    return s.substr(1, s.size() - 2);
 }
 
 inline void Config::Reset() noexcept {
@@ -3481,8 +3506,9 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
     auto iter = content.begin(), nameIter = iter;
     std::deque<Token> ret;
+    const auto decimalPoint = GetDecimalPoint();
 
-    auto tryComfirmToken = [&ret, &iter, &nameIter, &content] {
+    auto tryComfirmToken = [&ret, &iter, &nameIter, &content, &decimalPoint] {
         if (size_t size = std::distance(nameIter, iter)) {
             auto exp = StringView{&*nameIter, size};
             ret.emplace_back(0, static_cast<int>(std::distance(content.begin(), nameIter)), false, exp, content);
@@ -3490,11 +3516,18 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
             auto expStr = exp.toString();
             // 检验是否为浮点数
+            // strtod的小数点取决于C语言环境(setlocale)，表达式中的小数点总是'.'
+            auto numStr = expStr;
+            auto hasLocalPoint = decimalPoint != "." && numStr.find(decimalPoint) != std::string::npos;
+            auto pointPos = numStr.find('.');
+            if (pointPos != std::string::npos) {
+                numStr.replace(pointPos, 1, decimalPoint);
+            }
             // 不使用std::stod，因为它把非规格化数(例如1e-310)视为越界。溢出的数仍然不接受
             errno = 0;
             char *end = nullptr;
-            auto d = std::strtod(expStr.c_str(), &end);
-            if (end == expStr.c_str() + expStr.size() && !(errno == ERANGE && std::abs(d) > 1.0)) {
+            auto d = std::strtod(numStr.c_str(), &end);
+            if (!hasLocalPoint && end == numStr.c_str() + numStr.size() && !(errno == ERANGE && std::abs(d) > 1.0)) {
                 token.node = Num(d);
                 return;
             }
diff --git a/src/tomsolver/config.cpp b/src/tomsolver/config.cpp
index 855d345..2e5ec9e 100644
--- a/src/tomsolver/config.cpp
+++ b/src/tomsolver/config.cpp
@@ -30,7 +30,23 @@ std::string ToString(double value) noexcept {
     auto &re = std::get<1>(strategy);
 
     snprintf(buf, sizeof(buf), fmt, value);
-    return std::regex_replace(buf, re, "");
+
+    // snprintf写出的小数点取决于C语言环境(setlocale)，这里统一为'.'
+    std::string s = buf;
+    auto decimalPoint = internal::GetDecimalPoint();
+    auto pos = s.find(decimalPoint);
+    if (pos != std::string::npos) {
+        s.replace(pos, decimalPoint.size(), ".");
+    }
+    return std::regex_replace(s, re, "");
+}
+
+std::string internal::GetDecimalPoint() noexcept {
+    // 不使用localeconv，因为它不是线程安全的
+    char buf[16];
+    snprintf(buf, sizeof(buf), "%.1f", 0.0);
+    std::string s = buf;
+    return s.substr(1, s.size() - 2);
 }
 
 void Config::Reset() noexcept {
diff --git a/src/tomsolver/config.h b/src/tomsolver/config.h
index f259200..e16c2dc 100644
--- a/src/tomsolver/config.h
+++ b/src/tomsolver/config.h
@@ -47,4 +47,13 @@ struct Config {
 
 std::string ToString(double value) noexcept;
 
+namespace internal {
+
+/**
+ * C语言环境(setlocale)当前的小数点，例如德语中为逗号。
+ */
+std::string GetDecimalPoint() noexcept;
+
+} // namespace internal
+
 } // namespace tomsolver
\ No newline at end of file
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index cdfb246..ee4cc8b 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -1,5 +1,6 @@
 #include "parse.h"
 
+#include "config.h"
 #include "error_type.h"
 #include "math_operator.h"
 #include "node.h"
@@ -161,8 +162,9 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
     auto iter = content.begin(), nameIter = iter;
     std::deque<Token> ret;
+    const auto decimalPoint = GetDecimalPoint();
 
-    auto tryComfirmToken = [&ret, &iter, &nameIter, &content] {
+    auto tryComfirmToken = [&ret, &iter, &nameIter, &content, &decimalPoint] {
         if (size_t size = std::distance(nameIter, iter)) {
             auto exp = StringView{&*nameIter, size};
             ret.emplace_back(0, static_cast<int>(std::distance(content.begin(), nameIter)), false, exp, content);
@@ -170,11 +172,18 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 
             auto expStr = exp.toString();
             // 检验是否为浮点数
+            // strtod的小数点取决于C语言环境(setlocale)，表达式中的小数点总是'.'
+            auto numStr = expStr;
+            auto hasLocalPoint = decimalPoint != "." && numStr.find(decimalPoint) != std::string::npos;
+            auto pointPos = numStr.find('.');
+            if (pointPos != std::string::npos) {
+                numStr.replace(pointPos, 1, decimalPoint);
+            }
             // 不使用std::stod，因为它把非规格化数(例如1e-310)视为越界。溢出的数仍然不接受
             errno = 0;
             char *end = nullptr;
-            auto d = std::strtod(expStr.c_str(), &end);
-            if (end == expStr.c_str() + expStr.size() && !(errno == ERANGE && std::abs(d) > 1.0)) {
+            auto d = std::strtod(numStr.c_str(), &end);
+            if (!hasLocalPoint && end == numStr.c_str() + numStr.size() && !(errno == ERANGE && std::abs(d) > 1.0)) {
                 token.node = Num(d);
                 return;
             }
-- 
2.43.0


From 2dee21a90d74058a39618dd3d4d2fd3f3f684375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:38 +0000
Subject: [PATCH 23/28] fix: legal variable names and blanks depend on the C
 locale

---
 single/include/tomsolver/tomsolver.h | 18 +++++++++++++-----
 src/tomsolver/node.cpp               | 10 +++++++---
 src/tomsolver/parse.cpp              |  7 ++++++-
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 8ac2a65..1500438 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -1662,11 +1662,14 @@ inline Node Op(MathOperator op) {
 
 inline bool VarNameIsLegal(const std::string &varname) noexcept {
     // 不使用std::regex，因为其递归实现对于很长的名字会栈溢出
-    auto isWord = [](unsigned char c) {
-        return std::isalnum(c) || c == '_';
+    // 不使用std::isalnum，因为它取决于C语言环境(setlocale)
+    auto isDigit = [](char c) {
+        return c >= '0' && c <= '9';
     };
-    return !varname.empty() && !std::isdigit(static_cast<unsigned char>(varname.front())) &&
-           std::all_of(varname.begin(), varname.end(), isWord);
+    auto isWord = [&isDigit](char c) {
+        return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || isDigit(c) || c == '_';
+    };
+    return !varname.empty() && !isDigit(varname.front()) && std::all_of(varname.begin(), varname.end(), isWord);
 }
 
 inline Node Var(std::string varname) {
@@ -3565,6 +3568,11 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
                });
     };
 
+    // 不使用isspace，因为它取决于C语言环境(setlocale)
+    auto isBlank = [](char c) {
+        return c == ' ' || (c >= '\t' && c <= '\r');
+    };
+
     while (iter != content.end()) {
         if (isExponentSign()) {
             ++iter;
@@ -3576,7 +3584,7 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
                              content);
             ret.back().node = Op(BaseOperatorCharToEnum(*iter, unaryOp));
             nameIter = ++iter;
-        } else if (isspace(*iter)) {
+        } else if (isBlank(*iter)) {
             // 忽略tab (\t) whitespaces (\n, \v, \f, \r) space
             tryComfirmToken();
             nameIter = ++iter;
diff --git a/src/tomsolver/node.cpp b/src/tomsolver/node.cpp
index fab0857..a72afd6 100644
--- a/src/tomsolver/node.cpp
+++ b/src/tomsolver/node.cpp
@@ -663,10 +663,14 @@ Node Op(MathOperator op) {
 
 bool VarNameIsLegal(const std::string &varname) noexcept {
     // 不使用std::regex，因为其递归实现对于很长的名字会栈溢出
-    auto isWord = [](unsigned char c) {
-        return std::isalnum(c) || c == '_';
+    // 不使用std::isalnum，因为它取决于C语言环境(setlocale)
+    auto isDigit = [](char c) {
+        return c >= '0' && c <= '9';
     };
-    return !varname.empty() && !std::isdigit(static_cast<unsigned char>(varname.front())) &&
+    auto isWord = [&isDigit](char c) {
+        return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || isDigit(c) || c == '_';
+    };
+    return !varname.empty() && !isDigit(varname.front()) &&
            std::all_of(varname.begin(), varname.end(), isWord);
 }
 
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index ee4cc8b..52f4026 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -221,6 +221,11 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
                });
     };
 
+    // 不使用isspace，因为它取决于C语言环境(setlocale)
+    auto isBlank = [](char c) {
+        return c == ' ' || (c >= '\t' && c <= '\r');
+    };
+
     while (iter != content.end()) {
         if (isExponentSign()) {
             ++iter;
@@ -232,7 +237,7 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
                              content);
             ret.back().node = Op(BaseOperatorCharToEnum(*iter, unaryOp));
             nameIter = ++iter;
-        } else if (isspace(*iter)) {
+        } else if (isBlank(*iter)) {
             // 忽略tab (\t) whitespaces (\n, \v, \f, \r) space
             tryComfirmToken();
             nameIter = ++iter;
-- 
2.43.0


From 5d34e60e0a49995b7b5529b75e87c8e9df3a105d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:38 +0000
Subject: [PATCH 24/28] fix: names of functions and of infinity and NaN are not
 variable names

---
 single/include/tomsolver/tomsolver.h | 23 +++++++++++++++++++++--
 src/tomsolver/node.cpp               | 23 +++++++++++++++++++++--
 src/tomsolver/node.h                 |  2 +-
 3 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 1500438..1ec4133 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -932,7 +932,7 @@ inline Node Num(double num) noexcept;
 inline Node Op(MathOperator op);
 
 /**
- * 返回变量名是否有效。（只支持英文数字或者下划线，第一个字符必须是英文或者下划线）
+ * 返回变量名是否有效。（只支持英文数字或者下划线，第一个字符必须是英文或者下划线。函数名以及inf、infinity、nan无效）
  */
 inline bool VarNameIsLegal(const std::string &varname) noexcept;
 
@@ -1669,7 +1669,26 @@ inline bool VarNameIsLegal(const std::string &varname) noexcept {
     auto isWord = [&isDigit](char c) {
         return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || isDigit(c) || c == '_';
     };
-    return !varname.empty() && !isDigit(varname.front()) && std::all_of(varname.begin(), varname.end(), isWord);
+    if (varname.empty() || isDigit(varname.front()) || !std::all_of(varname.begin(), varname.end(), isWord)) {
+        return false;
+    }
+
+    // 函数名，以及表示无穷大和NaN的单词(不区分大小写)，会被Parse当作函数和数字，不能作为变量名
+    static const char *const functions[] = {"sin",    "cos",  "tan",  "arcsin", "asin", "arccos", "acos",
+                                            "arctan", "atan", "sqrt", "log",    "log2", "log10",  "exp"};
+    static const char *const numbers[] = {"inf", "infinity", "nan"};
+
+    auto isFunction = [&varname](const char *name) {
+        return varname == name;
+    };
+    auto isNumber = [&varname](const char *name) {
+        return varname.size() == std::strlen(name) &&
+               std::equal(varname.begin(), varname.end(), name, [](char c, char lower) {
+                   return c == lower || c == lower - 'a' + 'A';
+               });
+    };
+    return std::none_of(std::begin(functions), std::end(functions), isFunction) &&
+           std::none_of(std::begin(numbers), std::end(numbers), isNumber);
 }
 
 inline Node Var(std::string varname) {
diff --git a/src/tomsolver/node.cpp b/src/tomsolver/node.cpp
index a72afd6..97260b5 100644
--- a/src/tomsolver/node.cpp
+++ b/src/tomsolver/node.cpp
@@ -6,6 +6,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cctype>
+#include <cstring>
 #include <forward_list>
 #include <functional>
 #include <iostream>
@@ -670,8 +671,26 @@ bool VarNameIsLegal(const std::string &varname) noexcept {
     auto isWord = [&isDigit](char c) {
         return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || isDigit(c) || c == '_';
     };
-    return !varname.empty() && !isDigit(varname.front()) &&
-           std::all_of(varname.begin(), varname.end(), isWord);
+    if (varname.empty() || isDigit(varname.front()) || !std::all_of(varname.begin(), varname.end(), isWord)) {
+        return false;
+    }
+
+    // 函数名，以及表示无穷大和NaN的单词(不区分大小写)，会被Parse当作函数和数字，不能作为变量名
+    static const char *const functions[] = {"sin",  "cos",    "tan",  "arcsin", "asin", "arccos", "acos",
+                                            "arctan", "atan", "sqrt", "log",    "log2", "log10",  "exp"};
+    static const char *const numbers[] = {"inf", "infinity", "nan"};
+
+    auto isFunction = [&varname](const char *name) {
+        return varname == name;
+    };
+    auto isNumber = [&varname](const char *name) {
+        return varname.size() == std::strlen(name) &&
+               std::equal(varname.begin(), varname.end(), name, [](char c, char lower) {
+                   return c == lower || c == lower - 'a' + 'A';
+               });
+    };
+    return std::none_of(std::begin(functions), std::end(functions), isFunction) &&
+           std::none_of(std::begin(numbers), std::end(numbers), isNumber);
 }
 
 Node Var(std::string varname) {
diff --git a/src/tomsolver/node.h b/src/tomsolver/node.h
index e95ed15..0c92a13 100644
--- a/src/tomsolver/node.h
+++ b/src/tomsolver/node.h
@@ -220,7 +220,7 @@ Node Num(double num) noexcept;
 Node Op(MathOperator op);
 
 /**
- * 返回变量名是否有效。（只支持英文数字或者下划线，第一个字符必须是英文或者下划线）
+ * 返回变量名是否有效。（只支持英文数字或者下划线，第一个字符必须是英文或者下划线。函数名以及inf、infinity、nan无效）
  */
 bool VarNameIsLegal(const std::string &varname) noexcept;
 
-- 
2.43.0


From 3e15573694c133bb804df7f9dd73c54850ffe243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:49 +0000
Subject: [PATCH 25/28] fix: matrices given as rows of unequal lengths read
 past the shorter rows

---
 single/include/tomsolver/tomsolver.h | 7 ++++++-
 src/tomsolver/mat.cpp                | 3 ++-
 src/tomsolver/symmat.cpp             | 4 ++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 1ec4133..5919ee8 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2085,9 +2085,10 @@ inline Mat::Mat(std::initializer_list<std::initializer_list<double>> init) noexc
     assert(cols > 0);
     data.resize(rows * cols);
 
+    // 各行长度可以不同，空缺的元素为0
     auto i = 0;
     for (auto values : init) {
-        Row(i++) = values;
+        std::copy(values.begin(), values.end(), std::begin(data) + cols * i++);
     }
 }
 
@@ -4568,6 +4569,10 @@ inline SymMat::SymMat(std::initializer_list<std::initializer_list<Node>> init) n
         for (auto &node : val) {
             (*data)[i * cols + j++] = std::move(const_cast<Node &>(node));
         }
+        // 各行长度可以不同，空缺的元素为0
+        for (; j < cols; ++j) {
+            (*data)[i * cols + j] = Num(0);
+        }
         i++;
     }
 }
diff --git a/src/tomsolver/mat.cpp b/src/tomsolver/mat.cpp
index 621dab3..3526ab2 100644
--- a/src/tomsolver/mat.cpp
+++ b/src/tomsolver/mat.cpp
@@ -28,9 +28,10 @@ Mat::Mat(std::initializer_list<std::initializer_list<double>> init) noexcept {
     assert(cols > 0);
     data.resize(rows * cols);
 
+    // 各行长度可以不同，空缺的元素为0
     auto i = 0;
     for (auto values : init) {
-        Row(i++) = values;
+        std::copy(values.begin(), values.end(), std::begin(data) + cols * i++);
     }
 }
 
diff --git a/src/tomsolver/symmat.cpp b/src/tomsolver/symmat.cpp
index e9750d9..e0de0b0 100644
--- a/src/tomsolver/symmat.cpp
+++ b/src/tomsolver/symmat.cpp
@@ -33,6 +33,10 @@ SymMat::SymMat(std::initializer_list<std::initializer_list<Node>> init) noexcept
         for (auto &node : val) {
             (*data)[i * cols + j++] = std::move(const_cast<Node &>(node));
         }
+        // 各行长度可以不同，空缺的元素为0
+        for (; j < cols; ++j) {
+            (*data)[i * cols + j] = Num(0);
+        }
         i++;
     }
 }
-- 
2.43.0


From 1e9223984e238bc3d59f7effdb2038490e52692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:50 +0000
Subject: [PATCH 26/28] fix: solving equations without variables aborts, as
 does an empty variables table

---
 single/include/tomsolver/tomsolver.h | 10 +++++-----
 src/tomsolver/mat.cpp                |  6 +++---
 src/tomsolver/symmat.cpp             |  4 ++--
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 5919ee8..d80b9c0 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2072,8 +2072,8 @@ inline double Calc(MathOperator op, double v1, double v2) {
 namespace tomsolver {
 
 inline Mat::Mat(int rows, int cols, double initValue) noexcept : rows(rows), cols(cols), data(initValue, rows * cols) {
-    assert(rows > 0);
-    assert(cols > 0);
+    assert(rows >= 0);
+    assert(cols >= 0);
 }
 
 inline Mat::Mat(std::initializer_list<std::initializer_list<double>> init) noexcept {
@@ -2181,7 +2181,7 @@ inline int Mat::Cols() const noexcept {
 }
 
 inline Vec Mat::ToVec() const {
-    assert(rows > 0);
+    assert(rows >= 0);
     if (cols != 1) {
         throw std::runtime_error("Mat::ToVec fail. rows is not one");
     }
@@ -4552,7 +4552,7 @@ namespace tomsolver {
 using DataType = std::valarray<Node>;
 
 inline SymMat::SymMat(int rows, int cols) noexcept : rows(rows), cols(cols) {
-    assert(rows > 0 && cols > 0);
+    assert(rows >= 0 && cols >= 0);
     data.reset(new DataType(rows * cols));
 }
 
@@ -4604,7 +4604,7 @@ inline int SymMat::Cols() const noexcept {
 }
 
 inline SymVec SymMat::ToSymVec() const {
-    assert(rows > 0);
+    assert(rows >= 0);
     if (cols != 1) {
         throw std::runtime_error("SymMat::ToSymVec fail. rows is not one");
     }
diff --git a/src/tomsolver/mat.cpp b/src/tomsolver/mat.cpp
index 3526ab2..7c01115 100644
--- a/src/tomsolver/mat.cpp
+++ b/src/tomsolver/mat.cpp
@@ -15,8 +15,8 @@
 namespace tomsolver {
 
 Mat::Mat(int rows, int cols, double initValue) noexcept : rows(rows), cols(cols), data(initValue, rows * cols) {
-    assert(rows > 0);
-    assert(cols > 0);
+    assert(rows >= 0);
+    assert(cols >= 0);
 }
 
 Mat::Mat(std::initializer_list<std::initializer_list<double>> init) noexcept {
@@ -123,7 +123,7 @@ int Mat::Cols() const noexcept {
 }
 
 Vec Mat::ToVec() const {
-    assert(rows > 0);
+    assert(rows >= 0);
     if (cols != 1) {
         throw std::runtime_error("Mat::ToVec fail. rows is not one");
     }
diff --git a/src/tomsolver/symmat.cpp b/src/tomsolver/symmat.cpp
index e0de0b0..b0d3765 100644
--- a/src/tomsolver/symmat.cpp
+++ b/src/tomsolver/symmat.cpp
@@ -16,7 +16,7 @@ namespace tomsolver {
 using DataType = std::valarray<Node>;
 
 SymMat::SymMat(int rows, int cols) noexcept : rows(rows), cols(cols) {
-    assert(rows > 0 && cols > 0);
+    assert(rows >= 0 && cols >= 0);
     data.reset(new DataType(rows * cols));
 }
 
@@ -68,7 +68,7 @@ int SymMat::Cols() const noexcept {
 }
 
 SymVec SymMat::ToSymVec() const {
-    assert(rows > 0);
+    assert(rows >= 0);
     if (cols != 1) {
         throw std::runtime_error("SymMat::ToSymVec fail. rows is not one");
     }
-- 
2.43.0


From 282447e1273280f77bff5446ed4d92d064edecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:51 +0000
Subject: [PATCH 27/28] fix: LM method never stops when the iteration limit is
 negative

---
 single/include/tomsolver/tomsolver.h | 4 ++--
 src/tomsolver/nonlinear.cpp          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index d80b9c0..831954b 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -4098,7 +4098,7 @@ inline VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable)
                 mu *= 10.0; // 扩大λ，使模型倾向梯度下降方向
             }
 
-            if (it++ == Config::Get().maxIterations) {
+            if (it++ >= Config::Get().maxIterations) {
                 throw runtime_error("迭代次数超出限制");
             }
         }
@@ -4109,7 +4109,7 @@ inline VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable)
 
         F = FNew; // 更新F
 
-        if (it++ == Config::Get().maxIterations) {
+        if (it++ >= Config::Get().maxIterations) {
             throw runtime_error("迭代次数超出限制");
         }
 
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index cecd73e..be33465 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -237,7 +237,7 @@ VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable) {
                 mu *= 10.0; // 扩大λ，使模型倾向梯度下降方向
             }
 
-            if (it++ == Config::Get().maxIterations) {
+            if (it++ >= Config::Get().maxIterations) {
                 throw runtime_error("迭代次数超出限制");
             }
         }
@@ -248,7 +248,7 @@ VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable) {
 
         F = FNew; // 更新F
 
-        if (it++ == Config::Get().maxIterations) {
+        if (it++ >= Config::Get().maxIterations) {
             throw runtime_error("迭代次数超出限制");
         }
 
-- 
2.43.0


From d6e0ec6e96fd089ce8dab947abcd91be3fa476ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:13 +0000
Subject: [PATCH 28/28] fix: texts are silently cut short when memory runs out

---
 single/include/tomsolver/tomsolver.h | 8 +++++++-
 src/tomsolver/mat.cpp                | 1 +
 src/tomsolver/math_operator.cpp      | 1 +
 src/tomsolver/node.cpp               | 1 +
 src/tomsolver/parse.cpp              | 1 +
 src/tomsolver/parse.h                | 1 +
 src/tomsolver/symmat.cpp             | 1 +
 7 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 831954b..636c455 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -1151,6 +1151,7 @@ inline bool NodeImpl::Equal(const Node &other) const noexcept {
 
 inline std::string NodeImpl::ToString() const noexcept {
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit); // 内存不足时抛出异常，而不是输出残缺的文本
     ToStringNonRecursively(ss);
     return ss.str();
 }
@@ -2049,6 +2050,7 @@ inline double Calc(MathOperator op, double v1, double v2) {
     if (isInvalid) {
         // std::string info;
         std::stringstream info;
+        info.exceptions(std::ios_base::badbit); // 内存不足时抛出异常，而不是输出残缺的文本
         info << "expression: \"";
         switch (GetOperatorNum(op)) {
         case 1:
@@ -2229,6 +2231,7 @@ inline std::string Mat::ToString() const noexcept {
     }
 
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit); // 内存不足时抛出异常，而不是输出残缺的文本
     ss << "[";
 
     size_t i = 0;
@@ -3303,7 +3306,8 @@ public:
     SingleParseError(int line, int pos, internal::StringView content, T &&...errInfo)
         : line(line), pos(pos), content(content) {
         std::stringstream ss;
-        ss.imbue(std::locale::classic()); // 全局locale可能会给数字加上分隔符
+        ss.exceptions(std::ios_base::badbit); // 内存不足时抛出异常，而不是输出残缺的文本
+        ss.imbue(std::locale::classic());     // 全局locale可能会给数字加上分隔符
 
         ss << "[Parse Error] ";
         internal::append(ss, std::forward<T>(errInfo)...);
@@ -3508,6 +3512,7 @@ inline int SingleParseError::GetPos() const noexcept {
 
 inline MultiParseError::MultiParseError(const std::vector<SingleParseError> &parseErrors) : parseErrors(parseErrors) {
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit); // 内存不足时抛出异常，而不是输出残缺的文本
     std::transform(parseErrors.rbegin(), parseErrors.rend(), std::ostream_iterator<const char *>(ss, "\n"),
                    [](const auto &err) {
                        return err.what();
@@ -4711,6 +4716,7 @@ inline std::string SymMat::ToString() const noexcept {
     }
 
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit); // 内存不足时抛出异常，而不是输出残缺的文本
     ss << "[";
 
     size_t i = 0;
diff --git a/src/tomsolver/mat.cpp b/src/tomsolver/mat.cpp
index 7c01115..5914123 100644
--- a/src/tomsolver/mat.cpp
+++ b/src/tomsolver/mat.cpp
@@ -171,6 +171,7 @@ std::string Mat::ToString() const noexcept {
     }
 
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit); // 内存不足时抛出异常，而不是输出残缺的文本
     ss << "[";
 
     size_t i = 0;
diff --git a/src/tomsolver/math_operator.cpp b/src/tomsolver/math_operator.cpp
index 8fae25c..a005085 100644
--- a/src/tomsolver/math_operator.cpp
+++ b/src/tomsolver/math_operator.cpp
@@ -356,6 +356,7 @@ double Calc(MathOperator op, double v1, double v2) {
     if (isInvalid) {
         // std::string info;
         std::stringstream info;
+        info.exceptions(std::ios_base::badbit); // 内存不足时抛出异常，而不是输出残缺的文本
         info << "expression: \"";
         switch (GetOperatorNum(op)) {
         case 1:
diff --git a/src/tomsolver/node.cpp b/src/tomsolver/node.cpp
index 97260b5..d50825c 100644
--- a/src/tomsolver/node.cpp
+++ b/src/tomsolver/node.cpp
@@ -153,6 +153,7 @@ bool NodeImpl::Equal(const Node &other) const noexcept {
 
 std::string NodeImpl::ToString() const noexcept {
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit); // 内存不足时抛出异常，而不是输出残缺的文本
     ToStringNonRecursively(ss);
     return ss.str();
 }
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 52f4026..c2c62b5 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -141,6 +141,7 @@ int SingleParseError::GetPos() const noexcept {
 
 MultiParseError::MultiParseError(const std::vector<SingleParseError> &parseErrors) : parseErrors(parseErrors) {
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit); // 内存不足时抛出异常，而不是输出残缺的文本
     std::transform(parseErrors.rbegin(), parseErrors.rend(), std::ostream_iterator<const char *>(ss, "\n"),
                    [](const auto &err) {
                        return err.what();
diff --git a/src/tomsolver/parse.h b/src/tomsolver/parse.h
index 83a5db6..71cfb89 100644
--- a/src/tomsolver/parse.h
+++ b/src/tomsolver/parse.h
@@ -74,6 +74,7 @@ public:
     SingleParseError(int line, int pos, internal::StringView content, T &&...errInfo)
         : line(line), pos(pos), content(content) {
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit); // 内存不足时抛出异常，而不是输出残缺的文本
         ss.imbue(std::locale::classic()); // 全局locale可能会给数字加上分隔符
 
         ss << "[Parse Error] ";
diff --git a/src/tomsolver/symmat.cpp b/src/tomsolver/symmat.cpp
index b0d3765..978575c 100644
--- a/src/tomsolver/symmat.cpp
+++ b/src/tomsolver/symmat.cpp
@@ -175,6 +175,7 @@ std::string SymMat::ToString() const noexcept {
     }
 
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit); // 内存不足时抛出异常，而不是输出残缺的文本
     ss << "[";
 
     size_t i = 0;
-- 
2.43.0

