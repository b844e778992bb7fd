From 13bfd8ca025a75943b9eafe7f8b3d478b559f35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:59 +0000
Subject: [PATCH 01/82] fix: or stops at the first true operand, not at the
 first false one

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 34854b6..2969df3 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1487,7 +1487,7 @@ static std::shared_ptr<LispVariant> bool_operation_form(const std::vector<std::s
 		else
 		{
 			// process or
-			if (!result)
+			if (result)
 			{
 				break;
 			}
-- 
2.43.0


From 669e78c143498b944d96b5cb92b43218268c11bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:59 +0000
Subject: [PATCH 02/82] fix: a comment without text ends at its own line

---
 CppLisp/CppLispInterpreter/Tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Tokenizer.cpp b/CppLisp/CppLispInterpreter/Tokenizer.cpp
index 902e666..221a4fa 100644
--- a/CppLisp/CppLispInterpreter/Tokenizer.cpp
+++ b/CppLisp/CppLispInterpreter/Tokenizer.cpp
@@ -208,7 +208,7 @@ namespace CppLisp
 	{
 		string rest = code.Substring(i);
 		size_t pos = rest.IndexOf("\n", "StringComparison.InvariantCulture");
-		if (pos > 0)
+		if (pos != std::string::npos)
 		{
 			newIndex = i + pos;
 			return rest.Substring(0, pos + 1);
-- 
2.43.0


From 9784585e8111404556732fe2e8163d28ab32b696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:59 +0000
Subject: [PATCH 03/82] fix: a number literal out of range does not raise an
 unhandled C++ exception

---
 CppLisp/CppLispInterpreter/Token.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Token.cpp b/CppLisp/CppLispInterpreter/Token.cpp
index be1e978..7d521bd 100644
--- a/CppLisp/CppLispInterpreter/Token.cpp
+++ b/CppLisp/CppLispInterpreter/Token.cpp
@@ -54,6 +54,10 @@ namespace CppLisp
 		{
 			return false;
 		}
+		catch (const std::out_of_range &)
+		{
+			return false;
+		}
 	}
 
 	bool Double_TryParse(const string & txt, const string & /*NumberStyles_Any*/, const string & /*CultureInfo_InvariantCulture*/, double & doubleValue)
@@ -72,6 +76,10 @@ namespace CppLisp
 		{
 			return false;
 		}
+		catch (const std::out_of_range &)
+		{
+			return false;
+		}
 	}
 
 	LispToken::LispToken(const string & text, size_t start, size_t stop, size_t lineNo)
-- 
2.43.0


From bd1d41589ac8b4f9b3f706674f37182bb5d563c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 04/82] fix: a quoted quote (''a) is parsed as a list and no
 longer reads on behind it

---
 CppLisp/CppLispInterpreter/Parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Parser.cpp b/CppLisp/CppLispInterpreter/Parser.cpp
index 79e31d8..1c31a9d 100644
--- a/CppLisp/CppLispInterpreter/Parser.cpp
+++ b/CppLisp/CppLispInterpreter/Parser.cpp
@@ -101,6 +101,11 @@ namespace CppLisp
 				{
 					current->push_back/*Add*/(std::make_shared<object>(object(*quote)));
 				}
+				else if (!isToplevel)
+				{
+					parseResult = std::make_shared<object>(*quote);
+					return i;
+				}
 			}
 			else if (token->Type == LispTokenType::UnQuote || token->Type == LispTokenType::UnQuoteSplicing)
 			{
-- 
2.43.0


From 07f3db688c9d85ca1b1bf54d05d42a427dba394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:22 +0000
Subject: [PATCH 05/82] fix: report a quote without an expression as an error
 instead of popping an empty stack

---
 CppLisp/CppLispInterpreter/Parser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Parser.cpp b/CppLisp/CppLispInterpreter/Parser.cpp
index 1c31a9d..350ec62 100644
--- a/CppLisp/CppLispInterpreter/Parser.cpp
+++ b/CppLisp/CppLispInterpreter/Parser.cpp
@@ -71,6 +71,10 @@ namespace CppLisp
 			}
 			else if (token->Type == LispTokenType::ListEnd)
 			{
+				if (listStack.empty())
+				{
+					throw LispException(BracketsOutOfBalance, token, moduleName);
+				}
 				var temp = current;
 				listStack.pop();
 				if (listStack.size() > 0)
@@ -152,6 +156,11 @@ namespace CppLisp
 			throw LispException(BracketsOutOfBalance, token, moduleName);
 		}
 
+		if (current == null)
+		{
+			throw LispException(BracketsOutOfBalance, tokens.size() > 0 ? tokens.back() : std::shared_ptr<LispToken>(), moduleName);
+		}
+
 		parseResult = std::make_shared<object>(*current);
 		return i;
 	}
-- 
2.43.0


From 6ba3ccd95c37840ff4cfbf9c1bdf47aab501a7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 06/82] fix: an expression without a result (if without else,
 ...) is usable as argument and value

---
 CppLisp/CppLispInterpreter/Environment.cpp | 27 +++++++++++-----------
 CppLisp/CppLispInterpreter/Interpreter.cpp |  8 ++++++-
 CppLisp/CppLispInterpreter/Interpreter.h   |  3 +++
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 2969df3..a17f50a 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -244,7 +244,7 @@ static std::shared_ptr<object> CreateFunction(FuncX func, const string & signatu
 
 static std::shared_ptr<LispVariant> EvalArgIfNeeded(std::shared_ptr<object> arg, std::shared_ptr<LispScope> scope)
 {
-	return (arg->IsIEnumerableOfObject() /*is IEnumerable<object>*/ || arg->IsList()) ? LispInterpreter::EvalAst(arg, scope) : arg->ToLispVariant();
+	return (arg->IsIEnumerableOfObject() /*is IEnumerable<object>*/ || arg->IsList()) ? LispInterpreter::EvalAstToValue(arg, scope) : arg->ToLispVariant();
 }
 
 static std::shared_ptr<LispVariant> def_form_helper(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope, const string & name, std::shared_ptr<LispScope> scopeToSet)
@@ -256,7 +256,7 @@ static std::shared_ptr<LispVariant> def_form_helper(const std::vector<std::share
 	{
 		throw LispException("Symbol expected", scope.get());
 	}
-	var value = LispInterpreter::EvalAst(args[1], scope);
+	var value = LispInterpreter::EvalAstToValue(args[1], scope);
 	var ret = std::make_shared<object>(*value);
 	(*scopeToSet)[symbol->ToString()] = ret;
 	return std::make_shared<LispVariant>(ret);
@@ -1013,7 +1013,8 @@ static std::shared_ptr<LispVariant> Map(const std::vector<std::shared_ptr<object
 		// call for every element the given function (args[0])
 		std::vector<std::shared_ptr<object>> args;
 		args.push_back(std::make_shared<object>(*elem));
-		list.Add(std::make_shared<object>(*(function.Function(args, scope))));
+		var value = function.Function(args, scope);
+		list.Add(std::make_shared<object>(value != null ? *value : LispVariant()));
 	}
 	var result = std::make_shared<LispVariant>(LispType::_List, std::make_shared<object>(list));
 	return result;
@@ -1034,8 +1035,8 @@ static std::shared_ptr<LispVariant> Reduce(const std::vector<std::shared_ptr<obj
 		std::vector<std::shared_ptr<object>> args;
 		args.push_back(std::make_shared<object>(*elem));
 		args.push_back(std::make_shared<object>(*result));		
-		var x = *(function.Function(args, scope));
-		result = std::make_shared<LispVariant>(x);
+		var x = function.Function(args, scope);
+		result = x != null ? x : std::make_shared<LispVariant>();
 	}
 	return result;
 }
@@ -1335,7 +1336,7 @@ static std::shared_ptr<LispVariant> ApplyFcn(const std::vector<std::shared_ptr<o
 {
 	CheckArgs(LispEnvironment::Apply, 2, args, scope);
 
-	var fcn = LispInterpreter::EvalAst(args[0], scope);
+	var fcn = LispInterpreter::EvalAstToValue(args[0], scope);
 
 	const LispVariant & arguments = args[1]->ToLispVariantRef();
 
@@ -1474,7 +1475,7 @@ static std::shared_ptr<LispVariant> bool_operation_form(const std::vector<std::s
 	var result = initial;
 	for(var arg : args)
 	{
-		bool value = LispInterpreter::EvalAst(arg, scope)->BoolValue();
+		bool value = LispInterpreter::EvalAstToValue(arg, scope)->BoolValue();
 		result = func(result, value);
 		if (initial)
 		{ 
@@ -1525,7 +1526,7 @@ static std::shared_ptr<LispVariant> setf_form(const std::vector<std::shared_ptr<
 	var symbol = EvalArgIfNeeded(args[0], scope);
 	scope->NeedsLValue = originalNeedsLValue;
 	var symbolName = symbol != null ? symbol->ToString() : /*null*/string::Empty;
-	var value = LispInterpreter::EvalAst(args[1], scope);
+	var value = LispInterpreter::EvalAstToValue(args[1], scope);
 	if (symbol->IsLValue())
 	{
 		std::function<void(std::shared_ptr<object>)> action = symbol->Value->ToSetterAction();
@@ -1659,7 +1660,7 @@ static std::shared_ptr<object> ProcessQuotedSExpression(const IEnumerable<std::s
 			const LispVariant & variant = item1->ToLispVariantRef();
 			if (variant.IsSymbol() && (variant.ToString() == LispEnvironment::UnQuote || variant.ToString() == LispEnvironment::UnQuoteSplicing))
 			{
-				var evalResult = LispInterpreter::EvalAst(item2, scope);
+				var evalResult = LispInterpreter::EvalAstToValue(item2, scope);
 				splicing = variant.ToString() == LispEnvironment::UnQuoteSplicing;
 				evalResult->IsUnQuoted = splicing ? LispUnQuoteModus::_UnQuoteSplicing : LispUnQuoteModus::_UnQuote;
 				return std::make_shared<object>(*evalResult);
@@ -1721,7 +1722,7 @@ static std::shared_ptr<LispVariant> if_form(const std::vector<std::shared_ptr<ob
 		CheckArgs(If, -1, args, scope);
 	}
 
-	var passed = LispInterpreter::EvalAst(args[0], scope)->BoolValue();
+	var passed = LispInterpreter::EvalAstToValue(args[0], scope)->BoolValue();
 	var elseCode = args.size() > 2 ? args[2] : null; // PATCH for PIC32MX ? std::make_shared<object>(null);
 	return LispInterpreter::EvalAst(passed ? args[1] : elseCode, scope);
 }
@@ -1731,7 +1732,7 @@ static std::shared_ptr<LispVariant> while_form(const std::vector<std::shared_ptr
 	CheckArgs(While, 2, args, scope);
 
 	var result = std::make_shared<LispVariant>();
-	var condition = LispInterpreter::EvalAst(args[0], scope);
+	var condition = LispInterpreter::EvalAstToValue(args[0], scope);
 	while (condition->ToBool())
 	{
 		result = LispInterpreter::EvalAst(args[1], scope);
@@ -1739,7 +1740,7 @@ static std::shared_ptr<LispVariant> while_form(const std::vector<std::shared_ptr
 		{
 			break;
 		}
-		condition = LispInterpreter::EvalAst(args[0], scope);
+		condition = LispInterpreter::EvalAstToValue(args[0], scope);
 	}
 	return result;
 }
@@ -1872,7 +1873,7 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 			throw ex;
 		}
 		localScope->PopNextScope();
-		return ret;
+		return ret != null ? ret : std::make_shared<LispVariant>();
 	};
 
 	return std::make_shared<LispVariant>(CreateFunction(fcn, signature, documentation, /*isBuiltin:*/ false, /*isSpecialForm:*/ false,/*isEvalInExpand: */ false, /*moduleName :*/ scope->ModuleName));
diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index e9641d3..9faad85 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -71,6 +71,12 @@ namespace CppLisp
 		return astWithResolvedValues;
 	}
 
+	std::shared_ptr<LispVariant> LispInterpreter::EvalAstToValue(std::shared_ptr<object> ast, std::shared_ptr<LispScope> scope)
+	{
+		var result = EvalAst(ast, scope);
+		return result != null ? result : std::make_shared<LispVariant>();
+	}
+
 	std::shared_ptr<LispVariant> LispInterpreter::EvalAst(std::shared_ptr<object> ast, std::shared_ptr<LispScope> scope)
 	{
 		if (ast.get() == null)
@@ -175,7 +181,7 @@ namespace CppLisp
 		{
 			var needEvaluation = (arrAstWithResolvedValues[i]->IsList() /*is IEnumerable<object>*/) && !functionWrapper.IsSpecialForm();
 
-			var result = needEvaluation ? std::make_shared<object>(*EvalAst(arrAstWithResolvedValues[i], scope)) : arrAstWithResolvedValues[i];
+			var result = needEvaluation ? std::make_shared<object>(*EvalAstToValue(arrAstWithResolvedValues[i], scope)) : arrAstWithResolvedValues[i];
 			//var result = needEvaluation ? EvalAst(arrAstWithResolvedValues[i], scope)->Value : arrAstWithResolvedValues[i];
 
 			// process statemens like this: `,@l  with l = (1 2 3)
diff --git a/CppLisp/CppLispInterpreter/Interpreter.h b/CppLisp/CppLispInterpreter/Interpreter.h
index 07bfaca..b13ecd6 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.h
+++ b/CppLisp/CppLispInterpreter/Interpreter.h
@@ -73,6 +73,9 @@ namespace CppLisp
         /// <exception cref="System.Exception">Unexpected macro modus!</exception>
 		/*public*/ static std::shared_ptr<LispVariant> EvalAst(std::shared_ptr<object> ast, std::shared_ptr<LispScope> scope);
 
+		// as EvalAst, for places which need a value: undefined if the evaluation has no result, i. e. (if #f 1)
+		/*public*/ static std::shared_ptr<LispVariant> EvalAstToValue(std::shared_ptr<object> ast, std::shared_ptr<LispScope> scope);
+
 #ifdef ENABLE_COMPILE_TIME_MACROS 
 
 		/*public*/ static std::shared_ptr<object> ExpandMacros(std::shared_ptr<object> ast, std::shared_ptr<LispScope> globalScope);
-- 
2.43.0


From 4351d344656c9d58743319a5315d0c615d6741cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 07/82] fix: option -t and --macro-expand show the result of a
 script without a result

---
 CppLisp/CppLispInterpreter/fuel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/fuel.cpp b/CppLisp/CppLispInterpreter/fuel.cpp
index 9baa8c8..c80fecb 100644
--- a/CppLisp/CppLispInterpreter/fuel.cpp
+++ b/CppLisp/CppLispInterpreter/fuel.cpp
@@ -340,11 +340,11 @@ namespace CppLisp
 
 		if (macroExpand)
 		{
-			output->WriteLine(string("Macro expand: ") + result->ToString());
+			output->WriteLine(string("Macro expand: ") + (result != null ? result->ToString() : LispVariant().ToString()));
 		}
 		if (trace)
 		{
-			output->WriteLine(string("Result=") + result->ToString());
+			output->WriteLine(string("Result=") + (result != null ? result->ToString() : LispVariant().ToString()));
 		} 
 		if (measureTime)
 		{
-- 
2.43.0


From f6346c6305ea9a005942c7b2301ba06668418a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 08/82] fix: option -e without a script does not read behind
 the end of the arguments

---
 CppLisp/CppLispInterpreter/fuel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/fuel.cpp b/CppLisp/CppLispInterpreter/fuel.cpp
index c80fecb..bc65f04 100644
--- a/CppLisp/CppLispInterpreter/fuel.cpp
+++ b/CppLisp/CppLispInterpreter/fuel.cpp
@@ -211,7 +211,8 @@ namespace CppLisp
 		}
 		if (ContainsOptionAndRemove(allArgs, "-e"))
 		{
-			script = /*LispUtils.*/GetScriptFilesFromProgramArgs(args)[0]/*.FirstOrDefault()*/;
+			var scripts = /*LispUtils.*/GetScriptFilesFromProgramArgs(args);
+			script = scripts.size() > 0 ? scripts.front() : string::Empty/*.FirstOrDefault()*/;
 			loadFiles = false;
 		}
 		//org: var libPath = args.Where(v = > v.StartsWith("-l=")).Select(v = > v).ToArray();
-- 
2.43.0


From 1d358258bdff813978899ae6998c8cdaa8838dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 09/82] fix: option -l is accepted before other arguments

---
 CppLisp/CppLispInterpreter/fuel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/fuel.cpp b/CppLisp/CppLispInterpreter/fuel.cpp
index bc65f04..8a7a059 100644
--- a/CppLisp/CppLispInterpreter/fuel.cpp
+++ b/CppLisp/CppLispInterpreter/fuel.cpp
@@ -216,7 +216,8 @@ namespace CppLisp
 			loadFiles = false;
 		}
 		//org: var libPath = args.Where(v = > v.StartsWith("-l=")).Select(v = > v).ToArray();
-		var libPath = std::vector<string>(std::find_if(args.begin(), args.end(), [](const string & v) -> bool { return v.StartsWith("-l="); }), args.end());
+		std::vector<string> libPath;
+		std::copy_if(args.begin(), args.end(), back_inserter(libPath), [](const string & v) -> bool { return v.StartsWith("-l="); });
 		if (libPath.size() > 0)
 		{
 			if (libPath.size() == 1)
-- 
2.43.0


From 37069050ae154c92697f0d7d496f6987783798ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 10/82] fix: arithmetic operations without arguments are
 reported as an error

---
 CppLisp/CppLispInterpreter/Environment.cpp | 27 +++++++++++++---------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index a17f50a..ba1d7bc 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -862,8 +862,13 @@ static std::shared_ptr<LispVariant> UpperCase(const std::vector<std::shared_ptr<
 	return FuelFuncWrapper1<string, string>(args, scope, "upper-case", [](const string & arg1) -> string { return arg1.ToUpper();  });
 }
 
-static std::shared_ptr<LispVariant> ArithmetricOperation(const std::vector<std::shared_ptr<object>> & args, std::function<std::shared_ptr<LispVariant>(std::shared_ptr<LispVariant>, std::shared_ptr<LispVariant>)> op)
+static std::shared_ptr<LispVariant> ArithmetricOperation(const string & name, const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope, std::function<std::shared_ptr<LispVariant>(std::shared_ptr<LispVariant>, std::shared_ptr<LispVariant>)> op)
 {
+	if (args.size() == 0)
+	{
+		CheckArgs(name, 1, args, scope);
+	}
+
 	std::shared_ptr<LispVariant> result(null);
 	for (var elem : args)
 	{
@@ -884,12 +889,12 @@ static std::shared_ptr<LispVariant> CompareOperation(const std::vector<std::shar
 	return FuelFuncWrapper2<LispVariant, LispVariant, bool>(args, scope, name, [op](const LispVariant & arg1, const LispVariant & arg2) -> bool { return op(arg1, arg2); });
 }
 
-static std::shared_ptr<LispVariant> Addition(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> /*scope*/)
+static std::shared_ptr<LispVariant> Addition(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	return ArithmetricOperation(args, [](std::shared_ptr<LispVariant> l, std::shared_ptr<LispVariant> r) -> std::shared_ptr<LispVariant> { return std::make_shared<LispVariant>(*l + *r); });
+	return ArithmetricOperation("add", args, scope, [](std::shared_ptr<LispVariant> l, std::shared_ptr<LispVariant> r) -> std::shared_ptr<LispVariant> { return std::make_shared<LispVariant>(*l + *r); });
 }
 
-static std::shared_ptr<LispVariant> Subtraction(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> /*scope*/)
+static std::shared_ptr<LispVariant> Subtraction(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
 	// process unary - operator
 	if (args.size() == 1)
@@ -906,22 +911,22 @@ static std::shared_ptr<LispVariant> Subtraction(const std::vector<std::shared_pt
 		throw LispExceptionBase(string::Format("Unary operator - not available for {0}", value.TypeString()));
 	}
 
-	return ArithmetricOperation(args, [](std::shared_ptr<LispVariant> l, std::shared_ptr<LispVariant> r) -> std::shared_ptr<LispVariant> { return std::make_shared<LispVariant>(*l - *r); });
+	return ArithmetricOperation("sub", args, scope, [](std::shared_ptr<LispVariant> l, std::shared_ptr<LispVariant> r) -> std::shared_ptr<LispVariant> { return std::make_shared<LispVariant>(*l - *r); });
 }
 
-static std::shared_ptr<LispVariant> Multiplication(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> /*scope*/)
+static std::shared_ptr<LispVariant> Multiplication(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	return ArithmetricOperation(args, [](std::shared_ptr<LispVariant> l, std::shared_ptr<LispVariant> r) -> std::shared_ptr<LispVariant> { return std::make_shared<LispVariant>(*l * *r); });
+	return ArithmetricOperation("mul", args, scope, [](std::shared_ptr<LispVariant> l, std::shared_ptr<LispVariant> r) -> std::shared_ptr<LispVariant> { return std::make_shared<LispVariant>(*l * *r); });
 }
 
-static std::shared_ptr<LispVariant> Division(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> /*scope*/)
+static std::shared_ptr<LispVariant> Division(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	return ArithmetricOperation(args, [](std::shared_ptr<LispVariant> l, std::shared_ptr<LispVariant> r) -> std::shared_ptr<LispVariant> { return std::make_shared<LispVariant>(*l / *r); });
+	return ArithmetricOperation("div", args, scope, [](std::shared_ptr<LispVariant> l, std::shared_ptr<LispVariant> r) -> std::shared_ptr<LispVariant> { return std::make_shared<LispVariant>(*l / *r); });
 }
 
-static std::shared_ptr<LispVariant> Modulo(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> /*scope*/)
+static std::shared_ptr<LispVariant> Modulo(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	return ArithmetricOperation(args, [](std::shared_ptr<LispVariant> l, std::shared_ptr<LispVariant> r) -> std::shared_ptr<LispVariant> { return std::make_shared<LispVariant>(*l % *r); });
+	return ArithmetricOperation("mod", args, scope, [](std::shared_ptr<LispVariant> l, std::shared_ptr<LispVariant> r) -> std::shared_ptr<LispVariant> { return std::make_shared<LispVariant>(*l % *r); });
 }
 
 static std::shared_ptr<LispVariant> Not(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
-- 
2.43.0


From a2c6ac6110867539fa0ff4f7df6a27f87d043992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 11/82] fix: integer division and modulo by zero are reported
 as an error instead of ending the process

---
 CppLisp/CppLispInterpreter/Variant.cpp | 19 +++++++++++++++++--
 CppLisp/CppLispInterpreter/Variant.h   |  1 +
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index be6ea42..b36fc82 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -422,7 +422,11 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() / r.ToInt()));
+			if (r.ToInt() == 0)
+			{
+				throw CreateDivisionByZeroException(*this);
+			}
+			return /*new*/ LispVariant(std::make_shared<object>((int)((int64_t)ToInt() / r.ToInt())));
 		}
 		throw CreateInvalidOperationException("/", *this, r);
 	}
@@ -435,7 +439,11 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() % r.ToInt()));
+			if (r.ToInt() == 0)
+			{
+				throw CreateDivisionByZeroException(*this);
+			}
+			return /*new*/ LispVariant(std::make_shared<object>((int)((int64_t)ToInt() % r.ToInt())));
 		}
 		throw CreateInvalidOperationException("%", *this, r);
 	}
@@ -573,6 +581,13 @@ namespace CppLisp
 		return exception;
 	}
 
+	LispException LispVariant::CreateDivisionByZeroException(const LispVariant & l)
+	{
+		var exception = /*new*/ LispException("Division by zero", 0);
+		exception.AddTokenInfos(l.Token);
+		return exception;
+	}
+
 	const LispFunctionWrapper & LispVariant::FunctionValue() const
 	{
 		//get
diff --git a/CppLisp/CppLispInterpreter/Variant.h b/CppLisp/CppLispInterpreter/Variant.h
index bd97a65..c75a4d7 100644
--- a/CppLisp/CppLispInterpreter/Variant.h
+++ b/CppLisp/CppLispInterpreter/Variant.h
@@ -392,6 +392,7 @@ namespace CppLisp
 
 		/*private*/ LispException CreateInvalidCastException(const string & name, const string & msg = "no") const;
 	    /*private*/ static LispException CreateInvalidOperationException(const string & operation, const LispVariant & l, const LispVariant & r);
+	    /*private*/ static LispException CreateDivisionByZeroException(const LispVariant & l);
 
         //#endregion
     };
-- 
2.43.0


From 0fb62d19f54b91af804de5d284cfe22faaa3eb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 12/82] fix: integer arithmetic wraps around at the limits
 without undefined behaviour

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 CppLisp/CppLispInterpreter/Variant.cpp     | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index ba1d7bc..252cee4 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -902,7 +902,7 @@ static std::shared_ptr<LispVariant> Subtraction(const std::vector<std::shared_pt
 		var value = (LispVariant)args[0];
 		if (value.IsInt())
 		{
-			return std::make_shared<LispVariant>(std::make_shared<object>(-value.IntValue()));
+			return std::make_shared<LispVariant>(std::make_shared<object>((int)(-(int64_t)value.IntValue())));
 		}
 		if (value.IsDouble())
 		{
diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index b36fc82..6542e11 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -28,6 +28,7 @@
 #include "cstypes.h"
 
 #include <math.h>
+#include <cstdint>
 
 namespace CppLisp
 {
@@ -376,7 +377,7 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() + r.ToInt()));
+			return /*new*/ LispVariant(std::make_shared<object>((int)((int64_t)ToInt() + r.ToInt())));
 		}
 		if (IsList() && r.IsList())
 		{
@@ -396,7 +397,7 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() - r.ToInt()));
+			return /*new*/ LispVariant(std::make_shared<object>((int)((int64_t)ToInt() - r.ToInt())));
 		}
 		throw CreateInvalidOperationException("-", *this, r);
 	}
@@ -409,7 +410,7 @@ namespace CppLisp
 		}
 		if (IsInt() || r.IsInt())
 		{
-			return /*new*/ LispVariant(std::make_shared<object>(ToInt() * r.ToInt()));
+			return /*new*/ LispVariant(std::make_shared<object>((int)((int64_t)ToInt() * r.ToInt())));
 		}
 		throw CreateInvalidOperationException("*", *this, r);
 	}
-- 
2.43.0


From 6c76a7115329f9b45af3e2f8f8b7be559c93d2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 13/82] fix: shift operations with a count out of range have no
 undefined behaviour

---
 CppLisp/CppLispInterpreter/Environment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 252cee4..c2670cf 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -936,12 +936,12 @@ static std::shared_ptr<LispVariant> Not(const std::vector<std::shared_ptr<object
 
 static std::shared_ptr<LispVariant> LeftShift(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "lef-shift", [](const LispVariant & arg1, const LispVariant & arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() << arg2.IntValue())); });
+	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "lef-shift", [](const LispVariant & arg1, const LispVariant & arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>((int)((unsigned int)arg1.IntValue() << (arg2.IntValue() & 31)))); });
 }
 
 static std::shared_ptr<LispVariant> RightShift(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "right-shift", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() >> arg2.IntValue())); });
+	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "right-shift", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() >> (arg2.IntValue() & 31))); });
 }
 
 static std::shared_ptr<LispVariant> BinaryOr(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
-- 
2.43.0


From 3d0984d4e44df5874eaf89e9ccc992456f8865fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 14/82] fix: access to list elements out of range is reported
 as an error

---
 CppLisp/CppLispInterpreter/Environment.cpp |  3 +++
 CppLisp/CppLispInterpreter/cstypes.h       | 19 ++++++++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index c2670cf..2d7f843 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1111,6 +1111,7 @@ static std::shared_ptr<LispVariant> First(const std::vector<std::shared_ptr<obje
 			{ 
 				var vl = listValue->ToLispVariantNotConstRef();
 				IEnumerable<std::shared_ptr<object>> & container = vl.ListValueNotConstRef();
+				container.CheckIndex(0);
 				container[0] = newValue;
 			};
 
@@ -1141,6 +1142,7 @@ static std::shared_ptr<LispVariant> Last(const std::vector<std::shared_ptr<objec
 		{
 			var vl = listValue->ToLispVariantNotConstRef();
 			IEnumerable<std::shared_ptr<object>> & container = vl.ListValueNotConstRef();
+			container.CheckIndex(0);
 			container[container.Count()-1] = newValue;
 		};
 
@@ -1185,6 +1187,7 @@ static std::shared_ptr<LispVariant> Nth(const std::vector<std::shared_ptr<object
 		{
 			var vl = listValue->ToLispVariantNotConstRef();
 			IEnumerable<std::shared_ptr<object>> & container = vl.ListValueNotConstRef();
+			container.CheckIndex(index);
 			container[index] = newValue;
 		};
 
diff --git a/CppLisp/CppLispInterpreter/cstypes.h b/CppLisp/CppLispInterpreter/cstypes.h
index 1a390fd..d894e28 100644
--- a/CppLisp/CppLispInterpreter/cstypes.h
+++ b/CppLisp/CppLispInterpreter/cstypes.h
@@ -27,6 +27,7 @@
 #define _CSTYPES_H
 
 #include "csstring.h"
+#include "csexception.h"
 
 #include <vector>
 #include <map>
@@ -78,6 +79,7 @@ namespace CppLisp
 
 		inline const T & First() const
 		{
+			CheckIndex(0);
 			return std::vector<T>::front();
 		}
 
@@ -92,11 +94,22 @@ namespace CppLisp
 
 		inline const T & Last() const
 		{
+			CheckIndex(0);
 			return std::vector<T>::back();
 		}
 
+		// throws an exception if there is no element at the index
+		inline void CheckIndex(size_t index) const
+		{
+			if (index >= Count())
+			{
+				throw LispExceptionBase("Index out of range");
+			}
+		}
+
 		inline const T ElementAt(size_t index) const
 		{
+			CheckIndex(index);
 			return (*this)[index];
 		}
 
@@ -112,13 +125,17 @@ namespace CppLisp
 
 		inline void Insert(int index, const T & elem)
 		{
+			if (index < 0 || (size_t)index > Count())
+			{
+				throw LispExceptionBase("Index out of range");
+			}
 			std::vector<T>::insert(this->begin() + index, elem);
 		}
 
 		IEnumerable<T> Skip(int skipNoOfElements)
 		{
 			IEnumerable<T> temp(*this);
-			for (int i = 0; i < skipNoOfElements; i++)
+			for (int i = 0; i < skipNoOfElements && temp.Count() > 0; i++)
 			{
 				temp.erase(temp.begin());
 			}
-- 
2.43.0


From 8e3bc6be65fd9132a36f990edad9e244d55d1574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 15/82] fix: a substring behind the end of a string is reported
 as an error

---
 CppLisp/CppLispInterpreter/csstring.cpp | 9 +++++++++
 CppLisp/CppLispInterpreter/csstring.h   | 5 +----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/csstring.cpp b/CppLisp/CppLispInterpreter/csstring.cpp
index 981637b..dfc6316 100644
--- a/CppLisp/CppLispInterpreter/csstring.cpp
+++ b/CppLisp/CppLispInterpreter/csstring.cpp
@@ -66,6 +66,15 @@ namespace CppLisp
 		return std::equal(txt.rbegin(), txt.rend(), rbegin());
 	}
 
+	string string::Substring(size_t offs, size_t length) const
+	{
+		if (offs > size())
+		{
+			throw LispExceptionBase("Index out of range");
+		}
+		return string(substr(offs, length));
+	}
+
 	string string::ToUpper() const
 	{
 		string temp = *this;
diff --git a/CppLisp/CppLispInterpreter/csstring.h b/CppLisp/CppLispInterpreter/csstring.h
index 88499c9..760d8a0 100644
--- a/CppLisp/CppLispInterpreter/csstring.h
+++ b/CppLisp/CppLispInterpreter/csstring.h
@@ -137,10 +137,7 @@ namespace CppLisp
 			return compare(0, txt.length(), txt) == 0;
 		}
 
-		inline string Substring(size_t offs, size_t length = npos) const
-		{
-			return string(substr(offs, length));
-		}
+		string Substring(size_t offs, size_t length = npos) const;
 
 		inline string Replace(const string & searchTxt, const string & replaceTxt) const
 		{
-- 
2.43.0


From c6751d6b742c397618a876067e3661eb17e0c7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 16/82] fix: return, trace and sleep check their argument count

---
 CppLisp/CppLispInterpreter/Environment.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 2d7f843..181df77 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -383,6 +383,8 @@ static std::shared_ptr<LispVariant> NeedLValue(const std::vector<std::shared_ptr
 
 static std::shared_ptr<LispVariant> TracePrint(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckArgs("trace", 1, args, scope);
+
 	var status = args[0]->ToLispVariantRef();
 	(*scope)[Traceon] = std::make_shared<object>(status.BoolValue());
 	return std::make_shared<LispVariant>(std::make_shared<object>(status.BoolValue()));
@@ -431,8 +433,10 @@ static std::shared_ptr<LispVariant> CurrentTickCount(const std::vector<std::shar
 	return FuelFuncWrapper0<int>(args, scope, "tickcount", []() -> int { return (int)GetTickCount(); });
 }
 
-static std::shared_ptr<LispVariant> _Sleep(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> /*scope*/)
+static std::shared_ptr<LispVariant> _Sleep(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckArgs("sleep", 1, args, scope);
+
 	var timeInMs = ((LispVariant)args[0]).ToInt();
 	std::this_thread::sleep_for(std::chrono::milliseconds(timeInMs));
 	return std::make_shared<LispVariant>(LispVariant());
@@ -607,6 +611,8 @@ static std::shared_ptr<LispVariant> Nop(const std::vector<std::shared_ptr<object
 
 static std::shared_ptr<LispVariant> Return(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	CheckArgs("return", 1, args, scope);
+
 	scope->IsInReturn = true;
 	return std::make_shared<LispVariant>(LispVariant(args[0]));
 }
-- 
2.43.0


From 00d718a6c20f2d99142f898664f64cd44e233189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 17/82] fix: a macro call with too few arguments is reported as
 an error

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 9faad85..5dd5432 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -383,6 +383,10 @@ namespace CppLisp
 		for (var formalArgument : *formalArguments)
 		{
 			std::shared_ptr<object> value;
+			if (i >= (int)astAsList->Count())
+			{
+				throw LispException(string::Format("Bad argument count in macro {0}, has {1} expected {2}", astAsList->First()->ToString(), std::to_string(astAsList->Count() - 1), std::to_string(formalArguments->Count())), scope.get());
+			}
 			auto elem = (*astAsList)[i];
 			if (elem->IsIEnumerableOfObject() || elem->IsList())
 			{
-- 
2.43.0


From 153535055c642fcfc1772bfeb180ca70c6e41483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 18/82] fix: a function definition without arguments or block
 is reported as an error

---
 CppLisp/CppLispInterpreter/Environment.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 181df77..510b3b0 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1795,6 +1795,11 @@ static IEnumerable<std::shared_ptr<object>> VectorToList(const std::vector<std::
 
 std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	if (args.size() < 2)
+	{
+		CheckArgs(Fn, 2, args, scope);
+	}
+
 	var name = /*(string)*/scope->UserData.get()!=null ? scope->UserData->ToString() : "";
 	var moduleName = scope->ModuleName;
 	var userDoc = scope->UserDoc;
-- 
2.43.0


From e15e299d6a7d4c771a8d64fff9de140a76d1804d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 19/82] fix: using a value which is no list as a list is
 reported as an error

---
 CppLisp/CppLispInterpreter/csobject.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/csobject.cpp b/CppLisp/CppLispInterpreter/csobject.cpp
index 45d3e88..7394500 100644
--- a/CppLisp/CppLispInterpreter/csobject.cpp
+++ b/CppLisp/CppLispInterpreter/csobject.cpp
@@ -505,11 +505,19 @@ namespace CppLisp
 
 	const IEnumerable<std::shared_ptr<object>> & object::ToEnumerableOfObjectRef() const
 	{
+		if (!IsList())
+		{
+			throw LispExceptionBase("Invalid cast to list.");
+		}
 		return *(m_Data.pList); // IEnumerable<std::shared_ptr<object>>(*(m_Data.pList));
 	}
 
 	IEnumerable<std::shared_ptr<object>> & object::ToEnumerableOfObjectNotConstRef()
 	{
+		if (!IsList())
+		{
+			throw LispExceptionBase("Invalid cast to list.");
+		}
 		return *(m_Data.pList); // IEnumerable<std::shared_ptr<object>>(*(m_Data.pList));
 	}
 
-- 
2.43.0


From 5dddf8164b8091e5ceae6d9d63a9dba13dec80c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:49 +0000
Subject: [PATCH 20/82] fix: dictionary functions report an argument which is
 no dictionary as an error

---
 CppLisp/CppLispInterpreter/Environment.cpp | 24 +++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 510b3b0..9a89f48 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1403,11 +1403,21 @@ static std::shared_ptr<LispVariant> MakeDict(const std::vector<std::shared_ptr<o
 	return std::make_shared<LispVariant>(LispVariant(LispType::_NativeObject, std::make_shared<object>(Dictionary<LispVariant, std::shared_ptr<object>>())));
 }
 
+static Dictionary<LispVariant, std::shared_ptr<object>> & CheckForDictionary(const string & functionName, std::shared_ptr<object> arg, std::shared_ptr<LispScope> scope)
+{
+	const LispVariant & value = arg->ToLispVariantRef();
+	if (!(value.IsNativeObject() && value.Value->IsDictionary()))
+	{
+		throw LispException("No dictionary in " + functionName, scope.get());
+	}
+	return value.Value->ToDictionary();
+}
+
 static std::shared_ptr<LispVariant> DictSet(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
 	CheckArgs("dict-set", 3, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-set", args[0], scope);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var value = args[2]->ToLispVariant();
 	dict[key] = value->Value;
@@ -1419,7 +1429,7 @@ static std::shared_ptr<LispVariant> DictGet(const std::vector<std::shared_ptr<ob
 {
 	CheckArgs("dict-get", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-get", args[0], scope);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var result = dict.ContainsKey(key) ? dict[key] : std::make_shared<object>(object());
 
@@ -1430,7 +1440,7 @@ static std::shared_ptr<LispVariant> DictRemove(const std::vector<std::shared_ptr
 {
 	CheckArgs("dict-remove", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-remove", args[0], scope);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var ok = dict.Remove(key);
 
@@ -1441,7 +1451,7 @@ static std::shared_ptr<LispVariant> DictKeys(const std::vector<std::shared_ptr<o
 {
 	CheckArgs("dict-keys", 1, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-keys", args[0], scope);
 	IEnumerable<std::shared_ptr<object>> result;
 	for (var elem : dict.GetKeys())
 	//foreach(var key in nativeDict.Keys)
@@ -1456,7 +1466,7 @@ static std::shared_ptr<LispVariant> DictClear(const std::vector<std::shared_ptr<
 {
 	CheckArgs("dict-clean", 1, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-clean", args[0], scope);
 	dict.Clear();
 
 	return std::make_shared<LispVariant>();
@@ -1466,7 +1476,7 @@ static std::shared_ptr<LispVariant> DictContainsKey(const std::vector<std::share
 {
 	CheckArgs("dict-contains-key", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-contains-key", args[0], scope);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var result = dict.ContainsKey(key);
 
@@ -1477,7 +1487,7 @@ static std::shared_ptr<LispVariant> DictContainsValue(const std::vector<std::sha
 {
 	CheckArgs("dict-contains-value", 2, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = args[0]->ToLispVariantRef().Value->ToDictionary();
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-contains-value", args[0], scope);
 	var value = args[1]->ToLispVariant();
 	var result = dict.ContainsValue(value->Value);
 
-- 
2.43.0


From 13147722be0e693ee9569a6a958e84ed0af6922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:52 +0000
Subject: [PATCH 21/82] fix: lists are equal if their elements are equal,
 comparing lists with nil or nested lists does not fail

---
 CppLisp/CppLispInterpreter/Variant.cpp  | 10 +++++++++-
 CppLisp/CppLispInterpreter/csobject.cpp |  5 +++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 6542e11..1ace4d9 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -799,7 +799,15 @@ namespace CppLisp
 
 	bool LispVariant::operator==(const LispVariant & r) const
 	{
-		return *Value == *(r.Value);
+		try
+		{
+			return EqualOp(*this, r);
+		}
+		catch (const LispExceptionBase & /*exc*/)
+		{
+			// not comparable types are not equal
+			return false;
+		}
 	}
 
 	bool LispVariant::operator!=(const LispVariant & other) const
diff --git a/CppLisp/CppLispInterpreter/csobject.cpp b/CppLisp/CppLispInterpreter/csobject.cpp
index 7394500..92de230 100644
--- a/CppLisp/CppLispInterpreter/csobject.cpp
+++ b/CppLisp/CppLispInterpreter/csobject.cpp
@@ -136,6 +136,11 @@ namespace CppLisp
 
 	bool object::operator==(const object & other) const
 	{
+		if (IsLispVariant() != other.IsLispVariant())
+		{
+			// compare the values, i. e. a quoted nested list with the result of a list function
+			return LispVariant(std::make_shared<object>(*this)) == LispVariant(std::make_shared<object>(other));
+		}
 		if (GetType() == other.GetType())
 		{
 			switch (m_Type)
-- 
2.43.0


From d04222d8bfa3988f220eba36c85536bfed03646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:21 +0000
Subject: [PATCH 22/82] fix: dictionaries keep the type of their values, nil is
 a valid value

---
 CppLisp/CppLispInterpreter/Environment.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 9a89f48..8b52c95 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1420,7 +1420,7 @@ static std::shared_ptr<LispVariant> DictSet(const std::vector<std::shared_ptr<ob
 	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-set", args[0], scope);
 	const LispVariant & key = args[1]->ToLispVariantRef();
 	var value = args[2]->ToLispVariant();
-	dict[key] = value->Value;
+	dict[key] = std::make_shared<object>(*value);
 
 	return value;
 }
@@ -1488,8 +1488,8 @@ static std::shared_ptr<LispVariant> DictContainsValue(const std::vector<std::sha
 	CheckArgs("dict-contains-value", 2, args, scope);
 
 	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-contains-value", args[0], scope);
-	var value = args[1]->ToLispVariant();
-	var result = dict.ContainsValue(value->Value);
+	var value = std::make_shared<object>(args[1]->ToLispVariantRef());
+	var result = dict.ContainsValue(value);
 
 	return std::make_shared<LispVariant>(std::make_shared<object>(result));
 }
-- 
2.43.0


From 2730d04864cb4bdfa285f69ab96e98fe1950ef18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 23/82] fix: dictionary keys of different types do not collide
 and all simple types are usable as key

---
 CppLisp/CppLispInterpreter/Variant.cpp | 23 ++++++++++++++++++++++-
 CppLisp/CppLispInterpreter/cstypes.h   | 26 +++++++++++++++++++-------
 2 files changed, 41 insertions(+), 8 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 1ace4d9..0652db0 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -28,6 +28,7 @@
 #include "cstypes.h"
 
 #include <math.h>
+#include <cmath>
 #include <cstdint>
 
 namespace CppLisp
@@ -745,7 +746,7 @@ namespace CppLisp
 					result += ", ";
 				}
 
-				result += "[" + GetNativeObjectStringRepresentation(element.first.Value) + " : " + GetNativeObjectStringRepresentation(element.second) + "]";
+				result += "[" + GetNativeObjectStringRepresentation(std::make_shared<object>(element.first)) + " : " + GetNativeObjectStringRepresentation(element.second) + "]";
 			}
 
 			result = "{ " + result + " }";
@@ -797,6 +798,26 @@ namespace CppLisp
 		return ret;
 	}
 
+	bool KeyLess::operator()(const LispVariant & l, const LispVariant & r) const
+	{
+		if (l.IsNumber() && r.IsNumber())
+		{
+			// not a number is the smallest number
+			double left = l.ToDouble();
+			double right = r.ToDouble();
+			return left < right || (std::isnan(left) && !std::isnan(right));
+		}
+		if (l.IsNumber() || r.IsNumber())
+		{
+			return r.IsNumber();
+		}
+		if (l.Type != r.Type)
+		{
+			return l.Type < r.Type;
+		}
+		return string::CompareOrdinal(l.ToString(), r.ToString()) < 0;
+	}
+
 	bool LispVariant::operator==(const LispVariant & r) const
 	{
 		try
diff --git a/CppLisp/CppLispInterpreter/cstypes.h b/CppLisp/CppLispInterpreter/cstypes.h
index d894e28..551b95a 100644
--- a/CppLisp/CppLispInterpreter/cstypes.h
+++ b/CppLisp/CppLispInterpreter/cstypes.h
@@ -193,10 +193,22 @@ namespace CppLisp
 #endif
 	};
 
+	// **********************************************************************
+	// Order of values as keys in a dictionary: by type and text, numbers by value at the end
+	struct DLLEXPORT KeyLess
+	{
+		bool operator()(const LispVariant & l, const LispVariant & r) const;
+
+		template <class T> bool operator()(const T & l, const T & r) const
+		{
+			return l < r;
+		}
+	};
+
 	// **********************************************************************
 	// Wrapp stl map class with methods to support Dictionary class of C#
 	template <class K, class V>
-	class Dictionary : public std::map<K,V>
+	class Dictionary : public std::map<K, V, KeyLess>
 	{
 	public:
 		inline IEnumerable<K> GetKeys() const
@@ -211,8 +223,8 @@ namespace CppLisp
 
 		inline bool ContainsKey(const K & key, V * pValue = 0) const
 		{
-			auto iter = std::map<K, V>::find(key);
-			bool bFound = iter != std::map<K, V>::end();
+			auto iter = this->find(key);
+			bool bFound = iter != this->end();
 			if (bFound && (pValue != 0))
 			{
 				*pValue = iter->second;
@@ -222,8 +234,8 @@ namespace CppLisp
 
 		inline bool ContainsValue(const V & value) const
 		{
-			auto iter = std::map<K, V>::begin();
-			while (iter != std::map<K, V>::end())
+			auto iter = this->begin();
+			while (iter != this->end())
 			{
 				if (*(iter->second) == *(value))
 				{
@@ -236,12 +248,12 @@ namespace CppLisp
 
 		inline bool Remove(const K & key)
 		{
-			return std::map<K, V>::erase(key) > 0;
+			return this->erase(key) > 0;
 		}
 
 		inline void Clear()
 		{
-			std::map<K, V>::clear();
+			std::map<K, V, KeyLess>::clear();
 		}
 	};
 
-- 
2.43.0


From 8eadb77560935481bad6f0cb1b7b45a76db43130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:22 +0000
Subject: [PATCH 24/82] fix: evalstr accepts every value and restores the state
 of the scope after an error

---
 CppLisp/CppLispInterpreter/Environment.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 8b52c95..a6faa3f 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1387,10 +1387,20 @@ static std::shared_ptr<LispVariant> EvalStrFcn(const std::vector<std::shared_ptr
 {
 	CheckArgs("evalstr", 1, args, scope);
 
-	const LispVariant & variant = args[0]->ToLispVariantRef();
+	const string & code = args[0]->ToLispVariantRef().ToString();
 	var tempModuleName = scope->ModuleName;
+	std::shared_ptr<LispVariant> result;
 	scope->IsInEval = true;
-	var result = Lisp::Eval(variant.Value->ToString(), scope, LispEnvironment::EvalStrTag + scope->ModuleName + ":" + variant.Value->ToString());
+	try
+	{
+		result = Lisp::Eval(code, scope, LispEnvironment::EvalStrTag + scope->ModuleName + ":" + code);
+	}
+	catch (...)
+	{
+		scope->IsInEval = false;
+		scope->ModuleName = tempModuleName;
+		throw;
+	}
 	scope->IsInEval = false;
 	scope->ModuleName = tempModuleName;
 	return result;
-- 
2.43.0


From ebf0f66aec220ea21b2768cdd592e9a7250a9062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 25/82] fix: unquote is processed in a quasiquoted list with
 two elements

---
 CppLisp/CppLispInterpreter/Environment.cpp | 30 ++++++++++------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index a6faa3f..e25e1ae 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1700,32 +1700,28 @@ static std::shared_ptr<object> ProcessQuotedSExpression(const IEnumerable<std::s
 				return std::make_shared<object>(*evalResult);
 			}
 		}
-		result.Add(item1);
-		result.Add(item2);
 	}
-	else
+
+	for (var itm : expr)
 	{
-		for (var itm : expr)
+		if (itm->IsIEnumerableOfObject() || itm->IsList())
 		{
-			if (itm->IsIEnumerableOfObject() || itm->IsList())
+			bool tempSplicing = false;
+			var res = ProcessQuotedSExpression(itm->IsIEnumerableOfObject() ? itm->ToEnumerableOfObjectRef() : itm->ToListRef(), scope, /*out*/ tempSplicing);
+			if (tempSplicing)
 			{
-				bool tempSplicing = false;
-				var res = ProcessQuotedSExpression(itm->IsIEnumerableOfObject() ? itm->ToEnumerableOfObjectRef() : itm->ToListRef(), scope, /*out*/ tempSplicing);
-				if (tempSplicing)
-				{
-					const LispVariant & variant = res->ToLispVariantRef();
-					result.AddRange(variant.ListValueRef());
-				}
-				else
-				{
-					result.Add(res);
-				}
+				const LispVariant & variant = res->ToLispVariantRef();
+				result.AddRange(variant.ListValueRef());
 			}
 			else
 			{
-				result.Add(itm);
+				result.Add(res);
 			}
 		}
+		else
+		{
+			result.Add(itm);
+		}
 	}
 	return std::make_shared<object>(result);
 }
-- 
2.43.0


From 319c9356677cbd5036464e16897b76641e3e3ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 26/82] fix: arguments behind a spliced list are passed to the
 function

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 5dd5432..286add0 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -175,7 +175,8 @@ namespace CppLisp
 #endif
 
 		// evaluate arguments, but allow recursive lists
-		std::vector<std::shared_ptr<object>> arguments(astWithResolvedValues->Count() - 1); // = new object[astWithResolvedValues->Count() - 1];
+		std::vector<std::shared_ptr<object>> arguments; // = new object[astWithResolvedValues->Count() - 1];
+		arguments.reserve(astWithResolvedValues->Count() - 1);
 		const std::vector<std::shared_ptr<object>> & arrAstWithResolvedValues = astWithResolvedValues->ToArray();
 		for (size_t i = 1; i < astWithResolvedValues->Count(); i++)
 		{
@@ -190,19 +191,16 @@ namespace CppLisp
 				const LispVariant & variant = result->ToLispVariantRef();
 				if (variant.IsUnQuoted == LispUnQuoteModus::_UnQuoteSplicing && variant.IsList())
 				{
-					var lst = variant.ListValueRef();
-					arguments.resize(arguments.size() + lst.size() - 1);
-					for(var elem : lst)
+					for(var elem : variant.ListValueRef())
 					{
-						arguments[i - 1] = elem;
-						i++;
+						arguments.push_back(elem);
 					}
 
-					break;
+					continue;
 				}
 			}
 
-			arguments[i - 1] = result;
+			arguments.push_back(result);
 		}
 
 #ifndef _DISABLE_DEBUGGER
-- 
2.43.0


From 3868c03849709c859c8562e6adece31062ab270f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 27/82] fix: format replaces all placeholders and does not
 process placeholders in the given arguments

---
 CppLisp/CppLispInterpreter/csstring.cpp | 132 ++++++++----------------
 CppLisp/CppLispInterpreter/csstring.h   |   2 -
 2 files changed, 45 insertions(+), 89 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/csstring.cpp b/CppLisp/CppLispInterpreter/csstring.cpp
index dfc6316..1660edd 100644
--- a/CppLisp/CppLispInterpreter/csstring.cpp
+++ b/CppLisp/CppLispInterpreter/csstring.cpp
@@ -124,107 +124,65 @@ namespace CppLisp
 		return txt.size() == 0;
 	}
 
-	string string::ReplaceIn(const string & temp, const string & findText, const string & arg, bool & found)
+	// parses a placeholder like {0} or {0,-10} at the position pos, returns false if there is no placeholder
+	static bool ParsePlaceholder(const string & txt, size_t pos, size_t & argNo, int & width, size_t & endPos)
 	{
-		auto pos = temp.find(findText);
-		string ret = temp;
-		if (pos != std::string::npos)
+		endPos = txt.find("}", pos);
+		if (endPos == std::string::npos || endPos < pos + 2 || txt[pos + 1] < '0' || txt[pos + 1] > '4')
 		{
-			ret = ret.replace(pos, findText.size(), arg);
-			found = true;
+			return false;
+		}
+		argNo = txt[pos + 1] - '0';
+		width = 0;
+		if (endPos == pos + 2)
+		{
+			return true;
+		}
+		if (txt[pos + 2] != ',')
+		{
+			return false;
 		}
-		else
+		try
 		{
-			found = false;
+			width = std::stoi(txt.substr(pos + 3, endPos - pos - 3));
 		}
-		return ret;
+		catch (const std::exception & /*exc*/)
+		{
+			// no valid width
+			return false;
+		}
+		return true;
 	}
 
-	string string::ReplaceInWithFill(const string & temp, const string & findText, const string & arg, bool & found)
+	string string::Format(const string & txt, const string & arg1, const string & arg2, const string & arg3, const string & arg4, const string & arg5)
 	{
-		found = false;
-		string ret = temp;
-		auto pos = ret.find(findText);
-		if (pos != std::string::npos)
+		const string args[] = { arg1, arg2, arg3, arg4, arg5 };
+		string result;
+		size_t pos = 0;
+		while (pos < txt.size())
 		{
-			auto pos2 = ret.find("}", pos + 1);
-			if (pos2 != std::string::npos)
+			size_t argNo = 0;
+			size_t endPos = 0;
+			int width = 0;
+			if (txt[pos] == '{' && ParsePlaceholder(txt, pos, argNo, width, endPos))
 			{
-				string len = ret.substr(pos + 3, pos2 - pos - findText.size());
-				int l = std::stoi(len);
-				if (l > 0)
+				const string & arg = args[argNo];
+				if (arg == NULL_STRING)
 				{
-					int count = l - (int)arg.size();
-					ret = ret.replace(pos, pos2 - pos + 1, std::string(count > 0 ? count : 0, ' ') + arg);
-					found = true;
-				}
-				else
-				{
-					int count = abs(l) - (int)arg.size();
-					ret = ret.replace(pos, pos2 - pos + 1, arg + std::string(count > 0 ? count : 0, ' '));
-					found = true;
+					throw LispExceptionBase("Not enough items for format string: " + txt);
 				}
+				int count = abs(width) - (int)arg.size();
+				const std::string fill(count > 0 ? count : 0, ' ');
+				result += width > 0 ? fill + arg : arg + fill;
+				pos = endPos + 1;
+			}
+			else
+			{
+				result += txt[pos];
+				pos++;
 			}
 		}
-		return ret;
-	}
-
-	string string::Format(const string & txt, const string & arg1, const string & arg2, const string & arg3, const string & arg4, const string & arg5)
-	{
-		const string ERR_MSG = "Not enough items for format string: " + txt;
-		bool found;
-		string temp = txt;
-		temp = ReplaceIn(temp, "{0}", arg1, found);
-		if (found && arg1 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{0,", arg1, found);
-		if (found && arg1 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{1}", arg2, found);
-		if (found && arg2 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{1,", arg2, found);
-		if (found && arg2 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{2}", arg3, found);
-		if (found && arg3 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{2,", arg3, found);
-		if (found && arg3 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{3}", arg4, found);
-		if (found && arg4 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{3,", arg4, found);
-		if (found && arg4 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceIn(temp, "{4}", arg5, found);
-		if (found && arg5 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		temp = ReplaceInWithFill(temp, "{4,", arg5, found);
-		if (found && arg5 == NULL_STRING)
-		{
-			throw LispExceptionBase(ERR_MSG);
-		}
-		return temp;
+		return result;
 	}
 
     int string::CompareOrdinal(const string & a, const string & b)
diff --git a/CppLisp/CppLispInterpreter/csstring.h b/CppLisp/CppLispInterpreter/csstring.h
index 760d8a0..820e187 100644
--- a/CppLisp/CppLispInterpreter/csstring.h
+++ b/CppLisp/CppLispInterpreter/csstring.h
@@ -182,8 +182,6 @@ namespace CppLisp
 		std::vector<string> Split(const string & seperator) const;
 
 		static bool IsNullOrEmpty(const string & txt);
-		static string ReplaceIn(const string & temp, const string & findText, const string & arg, bool & found);
-		static string ReplaceInWithFill(const string & temp, const string & findText, const string & arg, bool & found);
 		static string Format(const string & txt, const string & arg1 = NULL_STRING, const string & arg2 = NULL_STRING, const string & arg3 = NULL_STRING, const string & arg4 = NULL_STRING, const string & arg5 = NULL_STRING);
 		static int CompareOrdinal(const string & a, const string & b);
 
-- 
2.43.0


From 6ac56adc40293bc93521d7af134e05dffc2fb162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 28/82] fix: an error inside of a function keeps its line and
 module information

---
 CppLisp/CppLispInterpreter/Environment.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index e25e1ae..d32e8a4 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1885,10 +1885,10 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 		{
 			ret = LispInterpreter:: EvalAst(args[1], childScope);
 		}
-		catch (LispStopDebuggerException & exc)
+		catch (LispStopDebuggerException & /*exc*/)
 		{
 			// forward a debugger stop exception to stop the debugger loop
-			throw exc;
+			throw;
 		}
 		catch (LispExceptionBase & ex)
 		{
@@ -1905,7 +1905,7 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 				debugger->InteractiveLoop(/*initialTopScope: */childScope, /*currentAst :*/ /*(IEnumerable<object>)*/std::make_shared<IEnumerable<std::shared_ptr<object>>>(args[1]->ToEnumerableOfObjectRef()) /*new List<object> { info.Item2 }*/);
 			}
 
-			throw ex;
+			throw;
 		}
 		localScope->PopNextScope();
 		return ret != null ? ret : std::make_shared<LispVariant>();
-- 
2.43.0


From ded20e06bfc2291772046bd2c158e5fe8089d76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 29/82] fix: trace works in functions too and is switched off
 by (trace #f)

---
 CppLisp/CppLispInterpreter/Environment.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index d32e8a4..561665a 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -130,12 +130,13 @@ static string GetStringRepresentation(const std::vector<std::shared_ptr<object>>
 		}
 		text += item->ToString();
 	}
-	if (scope->ContainsKey(Traceon) && (bool)(*scope)[Traceon])
+	var globalScope = scope->GlobalScope;
+	if (globalScope->ContainsKey(Traceon) && LispVariant((*globalScope)[Traceon]).ToBool())
 	{
-		var buffer = /*(StringBuilder)*/(*scope)[Tracebuffer];
+		var buffer = /*(StringBuilder)*/(*globalScope)[Tracebuffer];
 		string temp = buffer->ToString();
 		temp += text;
-		(*scope)[Tracebuffer] = std::make_shared<object>(temp);
+		(*globalScope)[Tracebuffer] = std::make_shared<object>(temp);
 		//old: buffer.Append(text);
 	}
 	return text;
@@ -386,13 +387,13 @@ static std::shared_ptr<LispVariant> TracePrint(const std::vector<std::shared_ptr
 	CheckArgs("trace", 1, args, scope);
 
 	var status = args[0]->ToLispVariantRef();
-	(*scope)[Traceon] = std::make_shared<object>(status.BoolValue());
+	(*(scope->GlobalScope))[Traceon] = std::make_shared<object>(status.BoolValue());
 	return std::make_shared<LispVariant>(std::make_shared<object>(status.BoolValue()));
 }
 
 static std::shared_ptr<LispVariant> GetTracePrint(const std::vector<std::shared_ptr<object>> & /*args*/, std::shared_ptr<LispScope> scope)
 {
-	string buffer = (*scope)[Tracebuffer]->ToString(); // var buffer = (StringBuilder)(*scope)[Tracebuffer];
+	string buffer = (*(scope->GlobalScope))[Tracebuffer]->ToString(); // var buffer = (StringBuilder)(*scope)[Tracebuffer];
 	return std::make_shared<LispVariant>(std::make_shared<object>(buffer));
 }
 
-- 
2.43.0


From 56bfd28a336becd243836fa68f92d1c623333584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 30/82] fix: args, arg and argscount outside of a function do
 not access a missing argument list

---
 CppLisp/CppLispInterpreter/Environment.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 561665a..dd064e7 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1321,16 +1321,22 @@ static std::shared_ptr<LispVariant> ConvertToString(const std::vector<std::share
 	return std::make_shared<LispVariant>(LispType::_String, std::make_shared<object>(value));
 }
 
+// returns the arguments of the current function, an empty list outside of a function
+static IEnumerable<std::shared_ptr<object>> GetCurrentArgs(std::shared_ptr<LispScope> scope)
+{
+	return scope->ContainsKey(ArgsMeta) ? (*scope)[ArgsMeta]->ToListRef() : IEnumerable<std::shared_ptr<object>>();
+}
+
 static std::shared_ptr<LispVariant> ArgsCountFcn(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper0<int>(args, scope, "argscount", [scope]() -> int { return (int)(*scope)[ArgsMeta]->ToListRef().Count();  });
+	return FuelFuncWrapper0<int>(args, scope, "argscount", [scope]() -> int { return (int)GetCurrentArgs(scope).Count();  });
 }
 
 static std::shared_ptr<LispVariant> ArgsFcn(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
 	CheckArgs("args", 0, args, scope);
 
-	var array = (*scope)[ArgsMeta]->ToListRef()/*.ToArray()*/;
+	var array = GetCurrentArgs(scope)/*.ToArray()*/;
 	return std::make_shared<LispVariant>(std::make_shared<object>(array));
 }
 
@@ -1339,7 +1345,7 @@ static std::shared_ptr<LispVariant> ArgFcn(const std::vector<std::shared_ptr<obj
 	CheckArgs("arg", 1, args, scope);
 
 	var index = args[0]->ToLispVariantRef().IntValue();
-	const IEnumerable<std::shared_ptr<object>> & array = (*scope)[ArgsMeta]->ToListRef();
+	const IEnumerable<std::shared_ptr<object>> array = GetCurrentArgs(scope);
 	if (index >= 0 && index < (int)array.size())
 	{
 		return std::make_shared<LispVariant>(array[index]);
-- 
2.43.0


From b0e87a540679702cd16403dc1ee3744aefdda806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 31/82] fix: map, reduce and apply pass nested lists as values
 to the function

---
 CppLisp/CppLispInterpreter/Environment.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index dd064e7..09481be 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1024,7 +1024,7 @@ static std::shared_ptr<LispVariant> Map(const std::vector<std::shared_ptr<object
 	{
 		// call for every element the given function (args[0])
 		std::vector<std::shared_ptr<object>> args;
-		args.push_back(std::make_shared<object>(*elem));
+		args.push_back(std::make_shared<object>(LispVariant(elem)));
 		var value = function.Function(args, scope);
 		list.Add(std::make_shared<object>(value != null ? *value : LispVariant()));
 	}
@@ -1045,7 +1045,7 @@ static std::shared_ptr<LispVariant> Reduce(const std::vector<std::shared_ptr<obj
 	{
 		// call for every element the given function (args[0])
 		std::vector<std::shared_ptr<object>> args;
-		args.push_back(std::make_shared<object>(*elem));
+		args.push_back(std::make_shared<object>(LispVariant(elem)));
 		args.push_back(std::make_shared<object>(*result));		
 		var x = function.Function(args, scope);
 		result = x != null ? x : std::make_shared<LispVariant>();
@@ -1363,7 +1363,11 @@ static std::shared_ptr<LispVariant> ApplyFcn(const std::vector<std::shared_ptr<o
 
 	if (arguments.IsList())
 	{
-		const IEnumerable<std::shared_ptr<object>> & argumentsArray = arguments.ListValueRef();
+		std::vector<std::shared_ptr<object>> argumentsArray;
+		for (var elem : arguments.ListValueRef())
+		{
+			argumentsArray.push_back(std::make_shared<object>(LispVariant(elem)));
+		}
 		var result = fcn->FunctionValue().Function(argumentsArray, scope);
 		return result;
 	}
-- 
2.43.0


From 4a53db27406f27c56a14f83b1144037e66f86f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 32/82] fix: int and float of a value which is not convertible
 are undefined

---
 CppLisp/CppLispInterpreter/Environment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 09481be..cb10e06 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -745,7 +745,7 @@ static std::shared_ptr<LispVariant> ToInt(const std::vector<std::shared_ptr<obje
 	{
 		return std::make_shared<LispVariant>(std::make_shared<object>(value.BoolValue() ? 1 : 0));
 	}
-	return std::make_shared<LispVariant>(std::make_shared<object>(LispType::_Undefined));
+	return std::make_shared<LispVariant>(LispVariant(LispType::_Undefined));
 }
 
 static std::shared_ptr<LispVariant> ToFloat(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
@@ -769,7 +769,7 @@ static std::shared_ptr<LispVariant> ToFloat(const std::vector<std::shared_ptr<ob
 	{
 		return std::make_shared<LispVariant>(std::make_shared<object>(value.BoolValue() ? 1.0 : 0.0));
 	}
-	return std::make_shared<LispVariant>(std::make_shared<object>(LispType::_Undefined));
+	return std::make_shared<LispVariant>(LispVariant(LispType::_Undefined));
 }
 
 static std::shared_ptr<LispVariant> Search(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
-- 
2.43.0


From 2d37883201f72cec464f57e1e72a557d8d944932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 33/82] fix: a return in a former evaluation does not stop the
 next evaluation in the same scope

---
 CppLisp/CppLispInterpreter/Lisp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index 0b67c2a..3272cd0 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -119,6 +119,10 @@ namespace CppLisp
 		currentScope->Tracing = tracing;
 		currentScope->Output = outp != null ? outp : (scope != null ? scope->Output : std::make_shared<TextWriter>());
 		currentScope->Input = inp != null ? inp : (scope != null ? scope->Input : std::make_shared<TextReader>());
+		if (!currentScope->IsInEval)
+		{
+			currentScope->IsInReturn = false;
+		}
 		RegisterNativeObjects(/*nativeItems,*/ *currentScope);
 		size_t offset = 0;
 		string code = /*LispUtils.*/DecorateWithBlock(lispCode, /*out*/ offset);
-- 
2.43.0


From 494e64d83f011741081047fa284d6885a17356e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 34/82] fix: setf and rval restore the state of the scope after
 an error

---
 CppLisp/CppLispInterpreter/Environment.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index cb10e06..3d08189 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1290,7 +1290,16 @@ static std::shared_ptr<LispVariant> RValue(const std::vector<std::shared_ptr<obj
 
 	var originalLValue = scope->NeedsLValue;
 	scope->NeedsLValue = false;
-	var value = EvalArgIfNeeded(args[0], scope);
+	std::shared_ptr<LispVariant> value;
+	try
+	{
+		value = EvalArgIfNeeded(args[0], scope);
+	}
+	catch (...)
+	{
+		scope->NeedsLValue = originalLValue;
+		throw;
+	}
 	scope->NeedsLValue = originalLValue;
 	return value;
 }
@@ -1568,7 +1577,16 @@ static std::shared_ptr<LispVariant> setf_form(const std::vector<std::shared_ptr<
 
 	var originalNeedsLValue = scope->NeedsLValue;
 	scope->NeedsLValue = true;
-	var symbol = EvalArgIfNeeded(args[0], scope);
+	std::shared_ptr<LispVariant> symbol;
+	try
+	{
+		symbol = EvalArgIfNeeded(args[0], scope);
+	}
+	catch (...)
+	{
+		scope->NeedsLValue = originalNeedsLValue;
+		throw;
+	}
 	scope->NeedsLValue = originalNeedsLValue;
 	var symbolName = symbol != null ? symbol->ToString() : /*null*/string::Empty;
 	var value = LispInterpreter::EvalAstToValue(args[1], scope);
-- 
2.43.0


From 060f2fcc45c5e2cc2275ddd73bcff66665e99445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 35/82] fix: doc and searchdoc work if macros or variables are
 defined and search in the loaded modules

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 CppLisp/CppLispInterpreter/Scope.cpp       | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 3d08189..b2fca91 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -321,7 +321,7 @@ static std::shared_ptr<LispVariant> DoSearchDocumentation(const std::vector<std:
 		{
 			help += scope->GetFunctionsHelpFormated(item->ToString(), select);
 			// search for functions in all loaded modules
-			auto tempScope = ((*(scope->GlobalScope))[LispEnvironment::Macros])->GetLispScopeRef();
+			auto tempScope = ((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef();
 			for(/*KeyValuePair*/std::pair<string, std::shared_ptr<object>> module : *tempScope)
 			{
 				help += module.second->GetLispScopeRef()->GetFunctionsHelpFormated(item->ToString(), select);
diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index 6935321..84a9b81 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -253,6 +253,10 @@ namespace CppLisp
 		//foreach (var key in Keys)
 		for (const string & key : GetKeys())
 		{
+			if (!(*this)[key]->IsLispVariant() || !(*this)[key]->ToLispVariantRef().IsFunction())
+			{
+				continue;
+			}
 			if (select != null)
 			{
 				if (select(key, functionName))
-- 
2.43.0


From 7cef728a78f1e668223670a95dd4947c0ad43d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 36/82] fix: a semicolon in a string does not change the line
 number of the following code

---
 CppLisp/CppLispInterpreter/Tokenizer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Tokenizer.cpp b/CppLisp/CppLispInterpreter/Tokenizer.cpp
index 221a4fa..3cc8881 100644
--- a/CppLisp/CppLispInterpreter/Tokenizer.cpp
+++ b/CppLisp/CppLispInterpreter/Tokenizer.cpp
@@ -106,14 +106,16 @@ namespace CppLisp
 				{
 					addToken(currentToken, i, lineCount);
 					i = ProcessComment(code, i, lineCount, ch, addToken);
+					// comment ends always with new line
+					lineCount++;
 				}
 				else
 				{
 					i = ProcessComment(code, i, lineCount, ch, addToken);
+					// comment ends always with new line
+					lineCount++;
 				}
 				wasLastBackslash = false;
-				// comment ends always with new line
-				lineCount++;
 			}
 			else if (ch == '\'' || ch == '`' || ch == ',')
 			{
-- 
2.43.0


From ea876fc4849019d6ddc9118b2a46b4ee8723e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 37/82] fix: a quote directly behind a symbol ends the symbol

---
 CppLisp/CppLispInterpreter/Tokenizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Tokenizer.cpp b/CppLisp/CppLispInterpreter/Tokenizer.cpp
index 3cc8881..01f6dd9 100644
--- a/CppLisp/CppLispInterpreter/Tokenizer.cpp
+++ b/CppLisp/CppLispInterpreter/Tokenizer.cpp
@@ -125,6 +125,10 @@ namespace CppLisp
 				}
 				else
 				{
+					if (isInSymbol)
+					{
+						addToken(currentToken, i, lineCount);
+					}
 					if (code[i + 1] == '@')
 					{
 						// process unquotesplicing
-- 
2.43.0


From ddaf4baaaf8dd13e7df19fe6394cb49ec4ffab15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 38/82] fix: a formal argument of a macro replaces symbols only

---
 CppLisp/CppLispInterpreter/Variant.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 0652db0..8fb7a07 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -327,7 +327,7 @@ namespace CppLisp
 		if (other->IsLispVariant())
 		{
 			const LispVariant & otherVariant = other->ToLispVariantRef();
-			return Value->Equals(*(otherVariant.Value));
+			return otherVariant.IsSymbol() && Value->Equals(*(otherVariant.Value));
 		}
 		return false;
 	}
-- 
2.43.0


From 89742419b29120a91ac557f612f36c49e7915059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 39/82] fix: the tracing flag of a scope is initialized

---
 CppLisp/CppLispInterpreter/Scope.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index 84a9b81..d60a31d 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -35,6 +35,7 @@ namespace CppLisp
 		IsInEval = false;
 		IsInReturn = false;
 		NeedsLValue = false;
+		Tracing = false;
 		Name = fcnName;
 		ModuleName = moduleName ? *moduleName : string::Empty;
 		//GlobalScope = globalScope != null ? globalScope : shared_from_this();
-- 
2.43.0


From d9fa4338f285e050024fd14b5d72f8b1fa8c532d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 40/82] fix: debugger asks only once for deleting all
 breakpoints if there is no more input

---
 CppLisp/CppLispDebugger/Debugger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 01deeef..920a074 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -499,7 +499,7 @@ namespace CppLisp
 					{
 						answer = answer.ToUpper();
 					}
-				} while (!(answer == "Y" || answer == "N" || answer == "YES" || answer == "NO"));
+				} while (!(answer == string::Empty || answer == "Y" || answer == "N" || answer == "YES" || answer == "NO"));
 				if (answer == "Y" || answer == "YES")
 				{
 					debugger->ClearAllBreakpoints();
-- 
2.43.0


From 0c8ede7cd1485ace58d32b1eaa14ce3c7eb4a22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:11 +0000
Subject: [PATCH 41/82] fix: evaluating the condition of a breakpoint does not
 stop at breakpoints

---
 CppLisp/CppLispDebugger/Debugger.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 920a074..34d1630 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -355,13 +355,18 @@ namespace CppLisp
 			{
 				if (breakpoint.Condition.size() > 0 && scope != null)
 				{
+					// the evaluation of the condition must not be debugged
+					var debugger = scope->GlobalScope->Debugger;
+					scope->GlobalScope->Debugger = null;
 					try
 					{
 						std::shared_ptr<LispVariant> result = Lisp::Eval(breakpoint.Condition, scope, scope->ModuleName);
-						return result->BoolValue();
+						scope->GlobalScope->Debugger = debugger;
+						return result != null && result->BoolValue();
 					}
 					catch (...)
 					{
+						scope->GlobalScope->Debugger = debugger;
 						Output->WriteLine("Error: bad condition for line {0}: {1}", std::to_string(breakpoint.LineNo), breakpoint.Condition);
 						return false;
 					}
-- 
2.43.0


From 0dd2a87ffd934bfc1004e2f9b9e80be50627e7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 42/82] fix: debugger shows the position of an expression
 without a token

---
 CppLisp/CppLispDebugger/Debugger.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 34d1630..ca7a5ff 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -264,10 +264,10 @@ namespace CppLisp
 		if (currentAst != null)
 		{
 			var lineNumber = initialTopScope != null ? initialTopScope->CurrentLineNo() : 0;
-			var startPos = initialTopScope != null ? initialTopScope->CurrentToken->StartPos : 0;
-			var stopPos = initialTopScope != null ? initialTopScope->CurrentToken->StopPos : 0;
+			var startPos = initialTopScope != null && initialTopScope->CurrentToken != null ? initialTopScope->CurrentToken->StartPos : 0;
+			var stopPos = initialTopScope != null && initialTopScope->CurrentToken != null ? initialTopScope->CurrentToken->StopPos : 0;
 			var moduleName = initialTopScope != null ? initialTopScope->ModuleName : "?";
-			var tokenTxt = initialTopScope != null ? initialTopScope->CurrentToken->ToString() : "?";
+			var tokenTxt = initialTopScope != null && initialTopScope->CurrentToken != null ? initialTopScope->CurrentToken->ToString() : "?";
 			Output->WriteLine("--> " + (*((*currentAst).begin()))->ToString()/*[0]*/ + " line=" + std::to_string((int)lineNumber) + " start=" + std::to_string((int)startPos) + " stop=" + std::to_string((int)stopPos) + " module=" + moduleName + " token=" + tokenTxt);
 		}
 		InteractiveLoop(this, initialTopScope, startedFromMain, tracing, outp, inp);
-- 
2.43.0


From 8bf85e8917c7ffdf7dedd8150b3e4c9f19f28e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 43/82] fix: debugger does not restart forever after a native
 exception

---
 CppLisp/CppLispDebugger/Debugger.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index ca7a5ff..03fe4a9 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -321,6 +321,7 @@ namespace CppLisp
 			catch (...)
 			{
 				Output->WriteLine("\nNative Exception...");
+				bRestart = InteractiveLoop(this, globalScope, /*startedFromMain:*/ true);
 			}
 
 			if (bRestart)
-- 
2.43.0


From b9cc9a21a3da59bb048111737283063632351037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 44/82] fix: debugger shows the result of an expression without
 a result and keeps the call stack

---
 CppLisp/CppLispDebugger/Debugger.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 03fe4a9..945f3f5 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -239,10 +239,12 @@ namespace CppLisp
 			}
 			else
 			{
+				// the evaluated expression must not change the call stack
+				var nextScope = currentScope->Next;
 				try
 				{
 					std::shared_ptr<LispVariant> result = Lisp::Eval(cmd, currentScope, currentScope->ModuleName, /*tracing:*/false, outp, inp);
-					debugger->Output->WriteLine("result={0}", result->ToString());
+					debugger->Output->WriteLine("result={0}", result != null ? result->ToString() : LispVariant().ToString());
 					interactiveScript += cmd + "\n";
 				}
 				catch (LispExceptionBase & ex)
@@ -253,6 +255,7 @@ namespace CppLisp
 				{
 					debugger->Output->WriteLine("Native Exception");
 				}
+				currentScope->Next = nextScope;
 			}
 		} while (!bContinueWithNextStatement);
 
-- 
2.43.0


From 26b48b53b03a1c6bbc6dc8d25e40cd8b05f2e5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:40 +0000
Subject: [PATCH 45/82] fix: debugger accepts only numbers as line number of a
 breakpoint

---
 CppLisp/CppLispDebugger/Debugger.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 945f3f5..f2012ac 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -626,7 +626,9 @@ namespace CppLisp
 		var ok = true;
 		try
 		{
-			result = /*Convert.ToInt32*/atoi(value.c_str());
+			size_t count = 0;
+			result = /*Convert.ToInt32*/std::stoi(value, &count);
+			ok = count == value.size();
 		}
 		catch (/*FormatException*/...)
 		{
-- 
2.43.0


From 19eec47d2bab9a2743456228b42e1ef6ea266f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 46/82] fix: an error message for an operator contains the
 types of the operands

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 CppLisp/CppLispInterpreter/Variant.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index b2fca91..de868f5 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -817,7 +817,7 @@ static std::shared_ptr<LispVariant> Search(const std::vector<std::shared_ptr<obj
 	}
 	else
 	{
-		throw LispExceptionBase("search not supported for type " + string((int)args[1]->GetType()));
+		throw LispExceptionBase("search not supported for type " + arg1.TypeString());
 	}
 	return std::make_shared<LispVariant>(std::make_shared<object>((int)foundPos));
 }
diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index 8fb7a07..cf806c8 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -578,7 +578,7 @@ namespace CppLisp
 
 	LispException LispVariant::CreateInvalidOperationException(const string & operation, const LispVariant & l, const LispVariant & r)
 	{
-		var exception = /*new*/ LispException(string::Format(NoOperatorForTypes, operation, l.Type, r.Type), 0);
+		var exception = /*new*/ LispException(string::Format(NoOperatorForTypes, operation, l.TypeString(), r.TypeString()), 0);
 		exception.AddTokenInfos(l.Token);
 		return exception;
 	}
-- 
2.43.0


From 798a260933950909d5775567ff1744bfdde4a1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 47/82] fix: search with a length finds text inside of the
 given range only

---
 CppLisp/CppLispInterpreter/csstring.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/csstring.h b/CppLisp/CppLispInterpreter/csstring.h
index 820e187..7839f67 100644
--- a/CppLisp/CppLispInterpreter/csstring.h
+++ b/CppLisp/CppLispInterpreter/csstring.h
@@ -157,7 +157,8 @@ namespace CppLisp
 
 		inline size_t IndexOf(const string & txt, size_t offset, size_t count) const
 		{
-			return find(txt.c_str(), offset, count);
+			size_t pos = find(txt, offset);
+			return pos != npos && pos - offset + txt.size() <= count ? pos : npos;
 		}
 
 		inline void Append(const string & txt)
-- 
2.43.0


From 3c72b5370d96a3b87d1799561dc957bd60d71e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 48/82] fix: a native exception while executing a script is
 returned as error value

---
 CppLisp/CppLispInterpreter/Lisp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index 3272cd0..5e9a3f9 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -185,6 +185,10 @@ namespace CppLisp
 		{
 			result = LispVariant::CreateErrorValue(exc.Message);
 		}
+		catch (const std::exception & exc)
+		{
+			result = LispVariant::CreateErrorValue(exc.what());
+		}
 		return result;
 	}
 
-- 
2.43.0


From 615d62ba491b60daddd51080654985fbf035d280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 49/82] fix: a compile time macro may expand to a value which
 is no list

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 286add0..4c695fd 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -289,7 +289,12 @@ namespace CppLisp
 				var macroExpand = macro->ToLispMacroCompileTimeExpand();
 				var astWithReplacedArguments = std::make_shared<object>(*ReplaceFormalArgumentsInExpression(macroExpand->FormalArguments, std::make_shared<IEnumerable<std::shared_ptr<object>>>(astAsList), macroExpand->Expression, globalScope, /*ref*/ anyMacroReplaced));
 				// process recursive macro expands (do not wrap list as LispVariant at this point)
-				var processedAst = ConvertLispVariantListToListIfNeeded(EvalAst(astWithReplacedArguments, globalScope)->Value);
+				var macroResult = EvalAstToValue(astWithReplacedArguments, globalScope);
+				if (macroResult->IsNil() || !macroResult->IsList())
+				{
+					return std::make_shared<object>(*macroResult);
+				}
+				var processedAst = ConvertLispVariantListToListIfNeeded(macroResult->Value);
 				return std::make_shared<object>(*processedAst);
 			}
 		}
@@ -389,6 +394,11 @@ namespace CppLisp
 			if (elem->IsIEnumerableOfObject() || elem->IsList())
 			{
 				value = /*elem;*/ ExpandMacros((*astAsList)[i], scope, /*ref*/ anyMacroReplaced);
+				if (value == null)
+				{
+					// the argument is removed in the expand phase
+					value = std::make_shared<object>(LispVariant());
+				}
 			}
 			else
 			{
-- 
2.43.0


From 0b2b318d636e5cabe5b04bc8b80de4599e813f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 50/82] fix: a list in a script may start with the name of a
 variable which is no function

---
 CppLisp/CppLispInterpreter/Interpreter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Interpreter.cpp b/CppLisp/CppLispInterpreter/Interpreter.cpp
index 4c695fd..f6d304e 100644
--- a/CppLisp/CppLispInterpreter/Interpreter.cpp
+++ b/CppLisp/CppLispInterpreter/Interpreter.cpp
@@ -263,15 +263,15 @@ namespace CppLisp
 		var functionName = function->ToString();
 		if (globalScope != null && globalScope->ContainsKey(functionName))
 		{
-			var fcn = (*globalScope)[functionName]->ToLispVariantRef().FunctionValue();
-			if (fcn.IsEvalInExpand())
+			var value = (*globalScope)[functionName];
+			if (value->IsLispVariant() && value->ToLispVariantRef().IsFunction() && value->ToLispVariantRef().FunctionValue().IsEvalInExpand())
 			{
 				var args = std::make_shared<IEnumerable<std::shared_ptr<object>>>(astAsList);
 				args->RemoveAt(0);
 
 				// process compile time macro definition 
 				//   --> side effect: add macro definition to internal macro scope
-				fcn.Function(args->ToArray(), globalScope);
+				value->ToLispVariantRef().FunctionValue().Function(args->ToArray(), globalScope);
 
 				// compile time macros definitions will be removed from code in expand macro phase
 				// because only the side effect above is needed for further macro replacements
-- 
2.43.0


From 7ea18f12d884bcb90567dddeecab32c23a63cd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:31 +0000
Subject: [PATCH 51/82] fix: nested quoted lists are compared element-wise

---
 CppLisp/CppLispInterpreter/csobject.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/csobject.cpp b/CppLisp/CppLispInterpreter/csobject.cpp
index 92de230..be67b15 100644
--- a/CppLisp/CppLispInterpreter/csobject.cpp
+++ b/CppLisp/CppLispInterpreter/csobject.cpp
@@ -158,7 +158,7 @@ namespace CppLisp
 				case __String:
 					return ToString() == other.ToString();
 				case __List:
-					return ToListRef() == other.ToListRef();
+					return ToListRef().SequenceEqual(other.ToListRef());
 				case __Function:
 					return false;
 				case __Symbol:
@@ -173,7 +173,7 @@ namespace CppLisp
 				case __LispToken:
 					return ToString() == other.ToString();
 				case __IEnumerableOfObject:
-					return ToListRef() == other.ToListRef();
+					return ToListRef().SequenceEqual(other.ToListRef());
 				case __VoidPtr:
 					return true;
 				case __LispScope:
@@ -548,7 +548,7 @@ namespace CppLisp
 			case __String:
 				return ToString() == other.ToString();
 			case __List:
-				return ToListRef() == other.ToListRef();
+				return ToListRef().SequenceEqual(other.ToListRef());
 			case __Function:
 // TODO --> not implemented yet ! also not in C#
 				return false;		// ???
-- 
2.43.0


From d108b48f81d8c196ed06efe7da1b85e0dbd478be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 52/82] fix: only a comma followed by @ is an unquote-splicing,
 a quoted symbol may start with @

---
 CppLisp/CppLispInterpreter/Tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Tokenizer.cpp b/CppLisp/CppLispInterpreter/Tokenizer.cpp
index 01f6dd9..faa5df7 100644
--- a/CppLisp/CppLispInterpreter/Tokenizer.cpp
+++ b/CppLisp/CppLispInterpreter/Tokenizer.cpp
@@ -129,7 +129,7 @@ namespace CppLisp
 					{
 						addToken(currentToken, i, lineCount);
 					}
-					if (code[i + 1] == '@')
+					if (ch == ',' && code[i + 1] == '@')
 					{
 						// process unquotesplicing
 						string s = string::Empty;
-- 
2.43.0


From db54142c386c9b64287e1f4a6dfebc7a9b5e862d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 53/82] fix: a string directly behind a symbol does not remove
 the symbol

---
 CppLisp/CppLispInterpreter/Tokenizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Tokenizer.cpp b/CppLisp/CppLispInterpreter/Tokenizer.cpp
index faa5df7..6aeea2d 100644
--- a/CppLisp/CppLispInterpreter/Tokenizer.cpp
+++ b/CppLisp/CppLispInterpreter/Tokenizer.cpp
@@ -159,6 +159,10 @@ namespace CppLisp
 				else
 				{
 					// start string
+					if (isInSymbol)
+					{
+						addToken(currentToken, i, lineCount);
+					}
 					isInString = true;
 					currentToken = string::Empty;
 				}
-- 
2.43.0


From cbfbf99f9cc0bcfd5611881f437b688739d8d2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:21 +0000
Subject: [PATCH 54/82] fix: a float without int counterpart is not converted
 to an int (undefined behaviour)

---
 CppLisp/CppLispInterpreter/Environment.cpp | 8 +++++++-
 CppLisp/CppLispInterpreter/Variant.cpp     | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index de868f5..12fff6c 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -37,6 +37,7 @@
 #include <ctime>
 
 #include <cmath>
+#include <limits>
 
 using namespace CppLisp;
 
@@ -735,7 +736,12 @@ static std::shared_ptr<LispVariant> ToInt(const std::vector<std::shared_ptr<obje
 	}
 	if (value.IsDouble())
 	{
-		return std::make_shared<LispVariant>(std::make_shared<object>((int)value.DoubleValue()));
+		double truncated = std::trunc(value.DoubleValue());
+		if (truncated >= std::numeric_limits<int>::min() && truncated <= std::numeric_limits<int>::max())
+		{
+			return std::make_shared<LispVariant>(std::make_shared<object>((int)truncated));
+		}
+		return std::make_shared<LispVariant>(LispVariant(LispType::_Undefined));
 	}
 	if (value.IsString())
 	{
diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index cf806c8..d88b51a 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -30,6 +30,7 @@
 #include <math.h>
 #include <cmath>
 #include <cstdint>
+#include <limits>
 
 namespace CppLisp
 {
@@ -174,7 +175,12 @@ namespace CppLisp
 		}
 		if (IsDouble())
 		{
-			return (int)DoubleValue();
+			double truncated = std::trunc(DoubleValue());
+			if (!(truncated >= std::numeric_limits<int>::min() && truncated <= std::numeric_limits<int>::max()))
+			{
+				throw CreateInvalidCastException("int", CppLisp::string::Format(CanNotConvertTo, TypeString(), "int"));
+			}
+			return (int)truncated;
 		}
 		if (IsString())
 		{
-- 
2.43.0


From 9b2c5cc5553e6b5dde6ba6b8ba8fe32807692218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:42 +0000
Subject: [PATCH 55/82] fix: an error message for quote contains the name of
 the function

---
 CppLisp/CppLispInterpreter/Environment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 12fff6c..aa92f99 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1647,7 +1647,7 @@ static std::shared_ptr<LispVariant> definemacroexpand_form(const std::vector<std
 
 static std::shared_ptr<LispVariant> quote_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	CheckArgs(Quote, 1, args, scope);
+	CheckArgs(LispEnvironment::Quote, 1, args, scope);
 
 	return std::make_shared<LispVariant>(std::make_shared<object>(*(args[0])));
 }
@@ -1702,7 +1702,7 @@ std::shared_ptr<object> UnQuoteIfNeeded(std::shared_ptr<object> item, bool & isS
 
 std::shared_ptr<LispVariant> unquote_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	CheckArgs(UnQuote, 1, args, scope);
+	CheckArgs(LispEnvironment::UnQuote, 1, args, scope);
 
 	return std::make_shared<LispVariant>(args[0]);
 }
-- 
2.43.0


From b97ed44d67e3455b81abe29dd6d7b56a2da96b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:26 +0000
Subject: [PATCH 56/82] fix: an error message for if contains the expected
 argument counts

---
 CppLisp/CppLispInterpreter/Environment.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index aa92f99..7fb1286 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1781,11 +1781,7 @@ std::shared_ptr<LispVariant> quasiquote_form(const std::vector<std::shared_ptr<o
 
 static std::shared_ptr<LispVariant> if_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	if (!(args.size() == 2 || args.size() == 3))
-	{
-		// throw exception
-		CheckArgs(If, -1, args, scope);
-	}
+	CheckOptionalArgs(If, 2, 3, args, scope);
 
 	var passed = LispInterpreter::EvalAstToValue(args[0], scope)->BoolValue();
 	var elseCode = args.size() > 2 ? args[2] : null; // PATCH for PIC32MX ? std::make_shared<object>(null);
-- 
2.43.0


From e0c080c46c71c1424d9dfce2abd4fe28057f1464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:13 +0000
Subject: [PATCH 57/82] fix: an error message for unquotesplicing contains the
 name of the function

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 7fb1286..b1647f2 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1709,7 +1709,7 @@ std::shared_ptr<LispVariant> unquote_form(const std::vector<std::shared_ptr<obje
 
 std::shared_ptr<LispVariant> unquotesplicing_form(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	CheckArgs(UnQuoteSplicing, 1, args, scope);
+	CheckArgs(LispEnvironment::UnQuoteSplicing, 1, args, scope);
 
 	return std::make_shared<LispVariant>(args[0]);
 }
-- 
2.43.0


From 48e22b6894941de9f10696601e2b955ba0e2d8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:15 +0000
Subject: [PATCH 58/82] fix: an error without line information is reported when
 a script is executed

---
 CppLisp/CppLispInterpreter/Lisp.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Lisp.cpp b/CppLisp/CppLispInterpreter/Lisp.cpp
index 5e9a3f9..6cd09c0 100644
--- a/CppLisp/CppLispInterpreter/Lisp.cpp
+++ b/CppLisp/CppLispInterpreter/Lisp.cpp
@@ -144,6 +144,16 @@ namespace CppLisp
 		return result;
 	}
 
+	static void WriteErrorMessage(const string & message, std::shared_ptr<TextWriter> outp)
+	{
+		string errMsg = string::Format("\nError executing script.\n\n{0}", message);
+		std::cout << errMsg << std::endl;
+		if (outp != null)
+		{
+			outp->WriteLine(errMsg);
+		}
+	}
+
 	std::shared_ptr<LispVariant> Lisp::SaveEval(const string & lispCode, const string & moduleName, bool verboseErrorOutput, bool tracing, std::shared_ptr<TextWriter> outp, std::shared_ptr<TextReader> inp, bool onlyMacroExpand)
 	{
 		std::shared_ptr<LispVariant> result;
@@ -183,10 +193,12 @@ namespace CppLisp
 		}
 		catch (LispExceptionBase exc)
 		{
+			WriteErrorMessage(exc.Message, outp);
 			result = LispVariant::CreateErrorValue(exc.Message);
 		}
 		catch (const std::exception & exc)
 		{
+			WriteErrorMessage(exc.what(), outp);
 			result = LispVariant::CreateErrorValue(exc.what());
 		}
 		return result;
-- 
2.43.0


From 66fb5434441b628ac3cfee163e750044a0483653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 59/82] fix: a changed variable of an imported module is
 visible outside of the module

---
 CppLisp/CppLispInterpreter/Environment.cpp |  2 +-
 CppLisp/CppLispInterpreter/csobject.cpp    | 12 +++++++++---
 CppLisp/CppLispInterpreter/csobject.h      |  4 +++-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index b1647f2..7e235fc 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -598,7 +598,7 @@ static std::shared_ptr<LispVariant> Import(const std::vector<std::shared_ptr<obj
 			result = Lisp::Eval(code, importScope, fileName);
 
 			// add new module to modules scope
-			(*(((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef()))[fileName] = std::make_shared<object>(*importScope); // .Add(fileName, importScope);
+			(*(((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef()))[fileName] = std::make_shared<object>(importScope); // .Add(fileName, importScope);
 
 			scope->PopNextScope();
 		}
diff --git a/CppLisp/CppLispInterpreter/csobject.cpp b/CppLisp/CppLispInterpreter/csobject.cpp
index be67b15..bddd91b 100644
--- a/CppLisp/CppLispInterpreter/csobject.cpp
+++ b/CppLisp/CppLispInterpreter/csobject.cpp
@@ -64,7 +64,13 @@ namespace CppLisp
 	object::object(const LispScope & value)
 		: m_Type(ObjectType::__LispScope)
 	{
-		m_Data.pScope = new LispScope(value);
+		m_Data.pScope = new std::shared_ptr<LispScope>(std::make_shared<LispScope>(value));
+	}
+
+	object::object(const std::shared_ptr<LispScope> & value)
+		: m_Type(ObjectType::__LispScope)
+	{
+		m_Data.pScope = new std::shared_ptr<LispScope>(value);
 	}
 
 	object::object(std::function<void(std::shared_ptr<object>)> action)
@@ -83,7 +89,7 @@ namespace CppLisp
 		}
 		else if (other.IsLispScope())
 		{
-			m_Data.pScope = new LispScope(*(other.GetLispScopeRef()));
+			m_Data.pScope = new std::shared_ptr<LispScope>(*(other.m_Data.pScope));
 		}
 		else if (other.IsLispFunctionWrapper())
 		{
@@ -441,7 +447,7 @@ namespace CppLisp
 	{
 		if (IsLispScope())
 		{
-			return m_Data.pScope;
+			return m_Data.pScope->get();
 		}
 		return null;
 	}
diff --git a/CppLisp/CppLispInterpreter/csobject.h b/CppLisp/CppLispInterpreter/csobject.h
index 341dc85..b82d9b2 100644
--- a/CppLisp/CppLispInterpreter/csobject.h
+++ b/CppLisp/CppLispInterpreter/csobject.h
@@ -116,7 +116,7 @@ namespace CppLisp
 // TODO --> maybe use shared_ptr, so we can return the correct reference and no copy (i. e. for pCompileMacro) --> search for return copy
 			std::string * pString;
 			LispVariant * pVariant;
-			LispScope * pScope;
+			std::shared_ptr<LispScope> * pScope;
 			LispToken * pToken;
 			IEnumerable<std::shared_ptr<object>> * pList;
 			LispFunctionWrapper * pFunctionWrapper;
@@ -181,6 +181,8 @@ namespace CppLisp
 
 		explicit object(const LispScope & value);
 
+		explicit object(const std::shared_ptr<LispScope> & value);
+
 		explicit object(std::function<void(std::shared_ptr<object>)> action);
 
 		explicit object(const Dictionary<LispVariant, std::shared_ptr<object>> & value);
-- 
2.43.0


From 38f142a798c55912141bf67ccdf2caae0fe26326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 60/82] fix: evaluating an expression or a breakpoint condition
 in the debugger does not change the state of the program

---
 CppLisp/CppLispDebugger/Debugger.cpp | 29 +++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index f2012ac..b9d6f7a 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -43,6 +43,29 @@ extern "C" CppLisp::ILispDebugger * create_debugger()
 
 namespace CppLisp
 {
+	// keeps the state of a scope while the debugger evaluates code in it
+	class ScopeStateKeeper
+	{
+	public:
+		explicit ScopeStateKeeper(std::shared_ptr<LispScope> scope)
+			: m_scope(scope), m_next(scope->Next), m_currentToken(scope->CurrentToken), m_isInReturn(scope->IsInReturn), m_tracing(scope->Tracing)
+		{
+		}
+		~ScopeStateKeeper()
+		{
+			m_scope->Next = m_next;
+			m_scope->CurrentToken = m_currentToken;
+			m_scope->IsInReturn = m_isInReturn;
+			m_scope->Tracing = m_tracing;
+		}
+	private:
+		std::shared_ptr<LispScope> m_scope;
+		std::shared_ptr<LispScope> m_next;
+		std::shared_ptr<LispToken> m_currentToken;
+		bool m_isInReturn;
+		bool m_tracing;
+	};
+
 	LispDebugger::LispDebugger()
 	{
 		Breakpoints = std::vector<LispBreakpointInfo>();
@@ -239,8 +262,8 @@ namespace CppLisp
 			}
 			else
 			{
-				// the evaluated expression must not change the call stack
-				var nextScope = currentScope->Next;
+				// the evaluated expression must not change the call stack and the position in the program
+				ScopeStateKeeper scopeStateKeeper(currentScope);
 				try
 				{
 					std::shared_ptr<LispVariant> result = Lisp::Eval(cmd, currentScope, currentScope->ModuleName, /*tracing:*/false, outp, inp);
@@ -255,7 +278,6 @@ namespace CppLisp
 				{
 					debugger->Output->WriteLine("Native Exception");
 				}
-				currentScope->Next = nextScope;
 			}
 		} while (!bContinueWithNextStatement);
 
@@ -362,6 +384,7 @@ namespace CppLisp
 					// the evaluation of the condition must not be debugged
 					var debugger = scope->GlobalScope->Debugger;
 					scope->GlobalScope->Debugger = null;
+					ScopeStateKeeper scopeStateKeeper(scope);
 					try
 					{
 						std::shared_ptr<LispVariant> result = Lisp::Eval(breakpoint.Condition, scope, scope->ModuleName);
-- 
2.43.0


From a0f85c728383274322291009aac8bc838b382b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:23 +0000
Subject: [PATCH 61/82] fix: a function without a name does not get the
 documentation of the previously defined function

---
 CppLisp/CppLispInterpreter/Environment.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 7e235fc..5bb7df9 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -2031,6 +2031,7 @@ static std::shared_ptr<LispVariant> defn_form_helper(const std::vector<std::shar
 	tempArgs.push_back(args[2]);
 	var resultingFcn = fn.Function(tempArgs, scope);
 	scope->UserData = null;
+	scope->UserDoc = null;
 
 	var defFcn = ((*(scope->GlobalScope))[name])->ToLispVariantRef().FunctionValue();
 	std::vector<std::shared_ptr<object>> tempArgs2;
-- 
2.43.0


From 341cdfc5a1113fa85ff49829cd4bd14f543fe46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 62/82] fix: documentation of the left shift operator contains
 its own name

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 5bb7df9..322019c 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -2437,7 +2437,7 @@ std::shared_ptr<LispScope> LispEnvironment::CreateDefaultScope()
 	(*scope)["%"] = CreateFunction(Modulo, "(% expr1 expr2)", "see: mod");
 
 	(*scope)[">>"] = CreateFunction(RightShift, "(>> expr1 expr2)", "Integer right shift. Returns integer expression1 right shifted for expression2 binary digits.");
-	(*scope)["<<"] = CreateFunction(LeftShift, "(>> expr1 expr2)", "Integer left shift. Returns integer expression1 left shifted for expression2 binary digits.");
+	(*scope)["<<"] = CreateFunction(LeftShift, "(<< expr1 expr2)", "Integer left shift. Returns integer expression1 left shifted for expression2 binary digits.");
 	(*scope)["|"] = CreateFunction(BinaryOr, "(| expr1 expr2)", "Binary or for integer numbers (bitwise or).");
 	(*scope)["&"] = CreateFunction(BinaryAnd, "(& expr1 expr2)", "Binary and for integer numbers (bitwise and).");
 	(*scope)["^"] = CreateFunction(BinaryXOr, "(^ expr1 expr2)", "Binary xor for integer numbers (bitwise xor).");
-- 
2.43.0


From 2351d4dd6e862eece304e8d507dbf11abc6c8835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 63/82] fix: quitting the debugger inside of an evaluated
 expression does not end it

---
 CppLisp/CppLispDebugger/Debugger.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index b9d6f7a..73bc59f 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -270,6 +270,16 @@ namespace CppLisp
 					debugger->Output->WriteLine("result={0}", result != null ? result->ToString() : LispVariant().ToString());
 					interactiveScript += cmd + "\n";
 				}
+				catch (LispStopDebuggerException & /*exc*/)
+				{
+					// quit inside of the evaluated expression ends this loop, too
+					bContinueWithNextStatement = true;
+					bRestart = false;
+					if (!startedFromMain)
+					{
+						throw;
+					}
+				}
 				catch (LispExceptionBase & ex)
 				{
 					debugger->Output->WriteLine("Exception: " + ex.Message);
-- 
2.43.0


From 308168afa01ff3bcc6352ab48af30b784d001312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:29 +0000
Subject: [PATCH 64/82] fix: a breakpoint with an unterminated module name ends
 the debugged program

---
 CppLisp/CppLispDebugger/Debugger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 73bc59f..8b4ecd6 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -563,7 +563,8 @@ namespace CppLisp
 				// process: filename:linenumber
 				size_t iStopPos;
 				moduleName = GetStringLiteral(rest.Substring(1), /*out*/ iStopPos);
-				rest = rest.Substring(iStopPos + 2); // adjust for the two "
+				// adjust for the two ", the closing one may be missing
+				rest = iStopPos + 2 <= rest.size() ? rest.Substring(iStopPos + 2) : string::Empty;
 				if (rest.StartsWith(":"))
 				{
 					cmdArgs = rest.Substring(1).Split(' ');
-- 
2.43.0


From 8936a3f53d7bfbc123b56800bb12e97de0989b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:04 +0000
Subject: [PATCH 65/82] fix: the call stack shows 18446744073709551615 for an
 unknown line

---
 CppLisp/CppLispInterpreter/Scope.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index d60a31d..75a3de3 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -203,7 +203,7 @@ namespace CppLisp
 		{
 			string currentItem = currentLevel == i ? "-->" : "   ";
 
-			ret = string::Format("{0,3}{1,5} name={2,-35} lineno={3,-4} module={4}\n", currentItem, std::to_string(i), current->Name, std::to_string(current->CurrentLineNo()), current->ModuleName) + ret;
+			ret = string::Format("{0,3}{1,5} name={2,-35} lineno={3,-4} module={4}\n", currentItem, std::to_string(i), current->Name, std::to_string((int)current->CurrentLineNo()), current->ModuleName) + ret;
 			current = current->Previous;
 			i--;
 		} while (current != null);
-- 
2.43.0


From 13b4b0cda1ea6c57543ac50e8c153ab97c14ea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:49 +0000
Subject: [PATCH 66/82] fix: a directory counts as an existing file and reading
 it fails with a foreign exception

---
 CppLisp/CppLispInterpreter/Environment.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 322019c..d461a80 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -103,11 +103,21 @@ namespace CppLisp
 static bool File_Exists(const string & fileName)
 {
 	std::ifstream infile(fileName);
-	return infile.good();
+	if (!infile.good())
+	{
+		return false;
+	}
+	// a directory can be opened but not be read
+	infile.peek();
+	return !infile.bad();
 }
 
 std::string ReadFileOrEmptyString(const std::string & fileName)
 {
+	if (!File_Exists(fileName))
+	{
+		return std::string();
+	}
 	std::ifstream ifs(fileName);
 	std::string content = std::string((std::istreambuf_iterator<char>(ifs)), (std::istreambuf_iterator<char>()));
 	return std::string(content);
-- 
2.43.0


From 75b6e992ebf88c213aad790939b424916e15ef3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:20 +0000
Subject: [PATCH 67/82] fix: File-WriteAllText reports success although nothing
 could be written

---
 CppLisp/CppLispInterpreter/Environment.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index d461a80..8215e47 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -127,6 +127,7 @@ bool WriteTextFile(const std::string & fileName, const std::string & content)
 {
 	std::ofstream ofs(fileName);
 	ofs << content;
+	ofs.flush();
 	return ofs.good();
 }
 
-- 
2.43.0


From eb5b1c9890a9275699ee9fa9f782286b8c443ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:57 +0000
Subject: [PATCH 68/82] fix: argument count errors of File-Exists and
 Math-Truncate name another function

---
 CppLisp/CppLispInterpreter/Environment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 8215e47..3d39c2f 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -2227,7 +2227,7 @@ static std::shared_ptr<object> QueryItem(std::shared_ptr<object> funcName, LispS
 
 std::shared_ptr<LispVariant> FileExits(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	CheckArgs("File-Exits", 1, args, scope);
+	CheckArgs("File-Exists", 1, args, scope);
 
 	var fileName = args[0]->ToLispVariantRef().ToString();
 	return std::make_shared<LispVariant>(std::make_shared<object>(File_Exists(fileName)));
@@ -2337,7 +2337,7 @@ std::shared_ptr<LispVariant> Math_round(const std::vector<std::shared_ptr<object
 
 std::shared_ptr<LispVariant> Math_truncate(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	return Math_function("Math-Truncated", [](double x) { return trunc(x); }, args, scope);
+	return Math_function("Math-Truncate", [](double x) { return trunc(x); }, args, scope);
 }
 
 std::shared_ptr<LispVariant> Math_abs(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
-- 
2.43.0


From c72eeb6fc9bf3bf9d2e8c7ab27e6b9c0a478bd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 69/82] fix: doc and searchdoc find global functions from
 inside of a function

---
 CppLisp/CppLispInterpreter/Environment.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 3d39c2f..35500e2 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -332,6 +332,11 @@ static std::shared_ptr<LispVariant> DoSearchDocumentation(const std::vector<std:
 		for(var item : args)
 		{
 			help += scope->GetFunctionsHelpFormated(item->ToString(), select);
+			// the builtin and all other global functions
+			if (scope != scope->GlobalScope)
+			{
+				help += scope->GlobalScope->GetFunctionsHelpFormated(item->ToString(), select);
+			}
 			// search for functions in all loaded modules
 			auto tempScope = ((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef();
 			for(/*KeyValuePair*/std::pair<string, std::shared_ptr<object>> module : *tempScope)
-- 
2.43.0


From 07d1a63981a5bf32a51f48b0e90709f63ce873bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 70/82] fix: argument errors of the bit operations and
 dict-clear name the right function

---
 CppLisp/CppLispInterpreter/Environment.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 35500e2..840246a 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -965,7 +965,7 @@ static std::shared_ptr<LispVariant> Not(const std::vector<std::shared_ptr<object
 
 static std::shared_ptr<LispVariant> LeftShift(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "lef-shift", [](const LispVariant & arg1, const LispVariant & arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>((int)((unsigned int)arg1.IntValue() << (arg2.IntValue() & 31)))); });
+	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "left-shift", [](const LispVariant & arg1, const LispVariant & arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>((int)((unsigned int)arg1.IntValue() << (arg2.IntValue() & 31)))); });
 }
 
 static std::shared_ptr<LispVariant> RightShift(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
@@ -975,17 +975,17 @@ static std::shared_ptr<LispVariant> RightShift(const std::vector<std::shared_ptr
 
 static std::shared_ptr<LispVariant> BinaryOr(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "lef-shift", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() | arg2.IntValue())); });
+	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "binary-or", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() | arg2.IntValue())); });
 }
 
 static std::shared_ptr<LispVariant> BinaryAnd(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "lef-shift", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() & arg2.IntValue())); });
+	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "binary-and", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() & arg2.IntValue())); });
 }
 
 static std::shared_ptr<LispVariant> BinaryXOr(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
 {
-	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "lef-shift", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() ^ arg2.IntValue())); });
+	return FuelFuncWrapper2<LispVariant, LispVariant, LispVariant>(args, scope, "binary-xor", [](const LispVariant& arg1, const LispVariant& arg2) -> LispVariant { return LispVariant(LispType::_Int, std::make_shared<object>(arg1.IntValue() ^ arg2.IntValue())); });
 }
 
 static std::shared_ptr<LispVariant> BinaryNot(const std::vector<std::shared_ptr<object>>& args, std::shared_ptr<LispScope> scope)
@@ -1516,9 +1516,9 @@ static std::shared_ptr<LispVariant> DictKeys(const std::vector<std::shared_ptr<o
 
 static std::shared_ptr<LispVariant> DictClear(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
-	CheckArgs("dict-clean", 1, args, scope);
+	CheckArgs("dict-clear", 1, args, scope);
 
-	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-clean", args[0], scope);
+	Dictionary<LispVariant, std::shared_ptr<object>> &  dict = CheckForDictionary("dict-clear", args[0], scope);
 	dict.Clear();
 
 	return std::make_shared<LispVariant>();
-- 
2.43.0


From 93081181d675fb92c8afca8847a608ba491a7526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 71/82] fix: evalstr does not take the comments of later
 definitions away

---
 CppLisp/CppLispInterpreter/Environment.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 840246a..2cac4ee 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1431,6 +1431,7 @@ static std::shared_ptr<LispVariant> EvalStrFcn(const std::vector<std::shared_ptr
 
 	const string & code = args[0]->ToLispVariantRef().ToString();
 	var tempModuleName = scope->ModuleName;
+	var tempTokens = scope->Tokens;
 	std::shared_ptr<LispVariant> result;
 	scope->IsInEval = true;
 	try
@@ -1441,10 +1442,12 @@ static std::shared_ptr<LispVariant> EvalStrFcn(const std::vector<std::shared_ptr
 	{
 		scope->IsInEval = false;
 		scope->ModuleName = tempModuleName;
+		scope->Tokens = tempTokens;
 		throw;
 	}
 	scope->IsInEval = false;
 	scope->ModuleName = tempModuleName;
+	scope->Tokens = tempTokens;
 	return result;
 }
 
-- 
2.43.0


From 9bcb2076add3d56604646819060a9113f7be5e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 72/82] fix: strings are compared and used as dictionary keys
 with all their characters, not only those before a null character

---
 CppLisp/CppLispInterpreter/csstring.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/csstring.cpp b/CppLisp/CppLispInterpreter/csstring.cpp
index 1660edd..2a23c23 100644
--- a/CppLisp/CppLispInterpreter/csstring.cpp
+++ b/CppLisp/CppLispInterpreter/csstring.cpp
@@ -187,6 +187,6 @@ namespace CppLisp
 
     int string::CompareOrdinal(const string & a, const string & b)
 	{
-		return strcmp(a.c_str(), b.c_str());
+		return a.compare(b);
 	}
 }
-- 
2.43.0


From 32c1bd6bb0b52648f86989822d4e88b2fdc1bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 73/82] fix: numbers too small for a normalised double are read
 as numbers by the parser, parse-float and float

---
 CppLisp/CppLispInterpreter/Environment.cpp | 14 +++++++------
 CppLisp/CppLispInterpreter/Token.cpp       | 24 ++++++++--------------
 2 files changed, 17 insertions(+), 21 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 2cac4ee..cdc7d01 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -34,6 +34,8 @@
 #include <chrono>
 #include <thread>
 
+#include <cerrno>
+#include <cstdlib>
 #include <ctime>
 
 #include <cmath>
@@ -729,12 +731,12 @@ static std::shared_ptr<LispVariant> ParseFloat(const std::vector<std::shared_ptr
 {
 	CheckArgs("parse-float", 1, args, scope);
 
-	double value;
-	try
-	{
-		value = std::stod(((LispVariant)args[0]).ToString());
-	}
-	catch (...)
+	// not std::stod: it rejects numbers which are too small for a normalised double
+	string text = ((LispVariant)args[0]).ToString();
+	char * endPos = 0;
+	errno = 0;
+	double value = strtod(text.c_str(), &endPos);
+	if (endPos == text.c_str() || (errno == ERANGE && std::fabs(value) > 1.0))
 	{
 		return std::make_shared<LispVariant>(LispVariant(LispType::_Undefined));
 	}
diff --git a/CppLisp/CppLispInterpreter/Token.cpp b/CppLisp/CppLispInterpreter/Token.cpp
index 7d521bd..62037c5 100644
--- a/CppLisp/CppLispInterpreter/Token.cpp
+++ b/CppLisp/CppLispInterpreter/Token.cpp
@@ -24,6 +24,9 @@
 * */
 
 #include "Token.h"
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <string>
 #include <stdexcept>
 
@@ -62,24 +65,15 @@ namespace CppLisp
 
 	bool Double_TryParse(const string & txt, const string & /*NumberStyles_Any*/, const string & /*CultureInfo_InvariantCulture*/, double & doubleValue)
 	{
-		try
-		{
-			size_t errPos;
-			doubleValue = std::stod(txt, &errPos);
-			if (errPos < txt.length())
-			{
-				return false;
-			}
-			return true;
-		}
-		catch (const std::invalid_argument &)
-		{
-			return false;
-		}
-		catch (const std::out_of_range &)
+		// not std::stod: it rejects numbers which are too small for a normalised double
+		char * endPos = 0;
+		errno = 0;
+		doubleValue = strtod(txt.c_str(), &endPos);
+		if (errno == ERANGE && std::fabs(doubleValue) > 1.0)
 		{
 			return false;
 		}
+		return endPos != txt.c_str() && endPos == txt.c_str() + txt.length();
 	}
 
 	LispToken::LispToken(const string & text, size_t start, size_t stop, size_t lineNo)
-- 
2.43.0


From 1c2d88f25a6a408ea6d760664b0a419130c02da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 74/82] fix: a text which is no number is reported as an error
 instead of being used as the number 0 or its first digits

---
 CppLisp/CppLispInterpreter/Variant.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Variant.cpp b/CppLisp/CppLispInterpreter/Variant.cpp
index d88b51a..d96b1b0 100644
--- a/CppLisp/CppLispInterpreter/Variant.cpp
+++ b/CppLisp/CppLispInterpreter/Variant.cpp
@@ -30,6 +30,8 @@
 #include <math.h>
 #include <cmath>
 #include <cstdint>
+#include <cstdlib>
+#include <stdexcept>
 #include <limits>
 
 namespace CppLisp
@@ -184,7 +186,20 @@ namespace CppLisp
 		}
 		if (IsString())
 		{
-			return /*Convert.ToInt32*/atoi(StringValue().c_str());
+			const string text = StringValue();
+			try
+			{
+				size_t endPos = 0;
+				int value = /*Convert.ToInt32*/std::stoi(text, &endPos);
+				if (endPos == text.size())
+				{
+					return value;
+				}
+			}
+			catch (const std::logic_error & /*exc*/)
+			{
+				// invalid argument or out of range
+			}
 		}
 		throw CreateInvalidCastException("int", CppLisp::string::Format(CanNotConvertTo, TypeString(), "int"));
 	}
@@ -205,7 +220,13 @@ namespace CppLisp
 		}
 		if (IsString())
 		{
-			return atof(StringValue().c_str()); //Convert.ToDouble(StringValue(), CultureInfo.InvariantCulture);
+			const string text = StringValue();
+			char * endPos = 0;
+			double value = strtod(text.c_str(), &endPos); //Convert.ToDouble(StringValue(), CultureInfo.InvariantCulture);
+			if (endPos != text.c_str() && endPos == text.c_str() + text.size())
+			{
+				return value;
+			}
 		}
 		throw CreateInvalidCastException("double", CppLisp::string::Format(CanNotConvertTo, TypeString(), "double"));
 	}
-- 
2.43.0


From 639cf9d7f43ffccc433aec778d747dbabe5e2d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 75/82] fix: search compares nested quoted lists by the same
 text as any other list

---
 CppLisp/CppLispInterpreter/Environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index cdc7d01..69908ce 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -831,7 +831,7 @@ static std::shared_ptr<LispVariant> Search(const std::vector<std::shared_ptr<obj
 		//foreach(var elem in list)
 		for (var elem : list)
 		{
-			if (searchText.Equals(elem->ToString()))
+			if (searchText.Equals(LispVariant(elem).ToString()))
 			{
 				foundPos = i;
 				break;
-- 
2.43.0


From 5e37320c6964d1e7d5fe7cb7f4ff9a7a890ec123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:23 +0000
Subject: [PATCH 76/82] fix: replace uses all characters of the search and the
 replacement text, not only those before a null character

---
 CppLisp/CppLispInterpreter/csstring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/csstring.h b/CppLisp/CppLispInterpreter/csstring.h
index 7839f67..c49684c 100644
--- a/CppLisp/CppLispInterpreter/csstring.h
+++ b/CppLisp/CppLispInterpreter/csstring.h
@@ -142,7 +142,7 @@ namespace CppLisp
 		inline string Replace(const string & searchTxt, const string & replaceTxt) const
 		{
 			std::string s = *this;
-			return do_replace(s, searchTxt.c_str(), replaceTxt.c_str());
+			return do_replace(s, searchTxt, replaceTxt);
 		}
 		
 		inline size_t IndexOf(const string & txt, const string & /*arg*//*StringComparison.InvariantCulture*/) const
-- 
2.43.0


From 0bf1a29dc3c54e24f0d31e7a12fcbbdaee95bd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:42 +0000
Subject: [PATCH 77/82] fix: the doc and searchdoc commands of the debugger
 keep the position in the program and report an error instead of ending the
 shell

---
 CppLisp/CppLispDebugger/Debugger.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/CppLisp/CppLispDebugger/Debugger.cpp b/CppLisp/CppLispDebugger/Debugger.cpp
index 8b4ecd6..1825006 100644
--- a/CppLisp/CppLispDebugger/Debugger.cpp
+++ b/CppLisp/CppLispDebugger/Debugger.cpp
@@ -66,6 +66,24 @@ namespace CppLisp
 		bool m_tracing;
 	};
 
+	// evaluates the command to show a documentation, this must neither change the state of the program nor end it
+	static void ShowDocumentation(std::shared_ptr<TextWriter> output, std::shared_ptr<LispScope> scope, const string & docCmd)
+	{
+		var currentDebugger = scope->GlobalScope->Debugger;
+		scope->GlobalScope->Debugger = null;
+		ScopeStateKeeper scopeStateKeeper(scope);
+		try
+		{
+			std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, scope, scope->ModuleName);
+			output->WriteLine(string("{0}"), result->ToString());
+		}
+		catch (LispExceptionBase & ex)
+		{
+			output->WriteLine("Exception: " + ex.Message);
+		}
+		scope->GlobalScope->Debugger = currentDebugger;
+	}
+
 	LispDebugger::LispDebugger()
 	{
 		Breakpoints = std::vector<LispBreakpointInfo>();
@@ -146,9 +164,7 @@ namespace CppLisp
 				var items = cmd.Split(' ');
 				if (items.size() > 1)
 				{
-					string docCmd = "(doc '" + items[1] + ")";
-					std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
-					debugger->Output->WriteLine(string("{0}"), result->ToString());
+					ShowDocumentation(debugger->Output, currentScope, "(doc '" + items[1] + ")");
 				}
 				else
 				{
@@ -160,9 +176,7 @@ namespace CppLisp
 				var items = cmd.Split(' ');
 				if (items.size() > 1)
 				{
-					string docCmd = "(searchdoc '" + items[1] + ")";
-					std::shared_ptr<LispVariant> result = Lisp::Eval(docCmd, currentScope, currentScope->ModuleName);
-					debugger->Output->WriteLine(string("{0}"), result->ToString());
+					ShowDocumentation(debugger->Output, currentScope, "(searchdoc '" + items[1] + ")");
 				}
 				else
 				{
-- 
2.43.0


From d291673d0048c6ba65cf326a1a64f946311edbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 78/82] fix: date-time returns the full year and the month from
 1 to 12

---
 CppLisp/CppLispInterpreter/Environment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 69908ce..e1b85f2 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -467,8 +467,8 @@ static std::shared_ptr<LispVariant> Datetime(const std::vector<std::shared_ptr<o
 	std::time_t t = std::time(0);   // get time now
 	std::tm* now = std::localtime(&t);
 
-	var year = now->tm_year;
-	var month = now->tm_mon;
+	var year = now->tm_year + 1900;
+	var month = now->tm_mon + 1;
 	var day = now->tm_mday;
 	var hour = now->tm_hour;
 	var minute = now->tm_min;
-- 
2.43.0


From c1a0a4e10b1e3262e3508c23407fca88ea1a6940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:35 +0000
Subject: [PATCH 79/82] fix: a comment inside of the head of a definition does
 not hide its documentation

---
 CppLisp/CppLispInterpreter/Environment.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index e1b85f2..6de9e17 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -1976,10 +1976,16 @@ static std::shared_ptr<LispToken> GetTokenBeforeDefn(std::shared_ptr<object> ite
 	if (item->IsLispVariant() /*is LispVariant*/)
 	{
 		const LispVariant & tokenName = item->ToLispVariantRef();
-		std::shared_ptr<LispToken> token1 = scope->GetPreviousToken(tokenName.Token);
-		std::shared_ptr<LispToken> token2 = scope->GetPreviousToken(token1);
-		std::shared_ptr<LispToken> token3 = scope->GetPreviousToken(token2);
-		return token3;
+		std::shared_ptr<LispToken> token = tokenName.Token;
+		// go back to defn and to the opening bracket, comments between them are no documentation
+		for (int i = 0; i < 2; i++)
+		{
+			do
+			{
+				token = scope->GetPreviousToken(token);
+			} while ((token.get() != null) && (token->Type == LispTokenType::Comment));
+		}
+		return scope->GetPreviousToken(token);
 	}
 	return null;
 }
-- 
2.43.0


From d62a8c4a97e19ea9da6d0a877ec854c20d9b9ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:24 +0000
Subject: [PATCH 80/82] fix: a function or module left because of an error is
 removed from the call stack

---
 CppLisp/CppLispInterpreter/Environment.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index 6de9e17..ce60c3a 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -613,7 +613,15 @@ static std::shared_ptr<LispVariant> Import(const std::vector<std::shared_ptr<obj
 			var importScope = std::make_shared<LispScope>("import " + fileName, scope->GlobalScope, std::make_shared<string>(fileName), scope->Output, scope->Input);
 			scope->PushNextScope(importScope);
 
-			result = Lisp::Eval(code, importScope, fileName);
+			try
+			{
+				result = Lisp::Eval(code, importScope, fileName);
+			}
+			catch (LispExceptionBase & /*exc*/)
+			{
+				scope->PopNextScope();
+				throw;
+			}
 
 			// add new module to modules scope
 			(*(((*(scope->GlobalScope))[LispEnvironment::Modules])->GetLispScopeRef()))[fileName] = std::make_shared<object>(importScope); // .Add(fileName, importScope);
@@ -1957,6 +1965,7 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 				debugger->InteractiveLoop(/*initialTopScope: */childScope, /*currentAst :*/ /*(IEnumerable<object>)*/std::make_shared<IEnumerable<std::shared_ptr<object>>>(args[1]->ToEnumerableOfObjectRef()) /*new List<object> { info.Item2 }*/);
 			}
 
+			localScope->PopNextScope();
 			throw;
 		}
 		localScope->PopNextScope();
-- 
2.43.0


From 0359191fa16997be035954b2dea6396923efc561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:51 +0000
Subject: [PATCH 81/82] fix: a definition which fails does not pass its
 documentation on to the next function

---
 CppLisp/CppLispInterpreter/Environment.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index ce60c3a..f38ff41 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -2057,10 +2057,12 @@ static std::shared_ptr<LispVariant> defn_form_helper(const std::vector<std::shar
 {
 	CheckArgs(name, 3, args, scope);
 
+	// the evaluation of the name might fail, it must not leave any documentation at the scope
+	string functionName = EvalArgIfNeeded(args[0], scope)->ToString();
 	UpdateDocumentationInformationAtScope(args, scope);
 
 	var fn = ((*(scope->GlobalScope))[Fn])->ToLispVariantRef().FunctionValue();
-	scope->UserData = std::make_shared<object>(EvalArgIfNeeded(args[0], scope)->ToString());
+	scope->UserData = std::make_shared<object>(functionName);
 
 	std::vector<std::shared_ptr<object>> tempArgs;
 	tempArgs.push_back(args[1]);
-- 
2.43.0


From a1c1f6993aac974b5d7596c345ea09cf29785a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:58 +0000
Subject: [PATCH 82/82] fix: scripts cannot define or delete the internal
 symbols of the interpreter

---
 CppLisp/CppLispInterpreter/Environment.cpp | 17 +++++++++++++++++
 CppLisp/CppLispInterpreter/Environment.h   |  2 ++
 CppLisp/CppLispInterpreter/Scope.cpp       |  9 +++++++++
 3 files changed, 28 insertions(+)

diff --git a/CppLisp/CppLispInterpreter/Environment.cpp b/CppLisp/CppLispInterpreter/Environment.cpp
index f38ff41..a9ba785 100644
--- a/CppLisp/CppLispInterpreter/Environment.cpp
+++ b/CppLisp/CppLispInterpreter/Environment.cpp
@@ -271,6 +271,10 @@ static std::shared_ptr<LispVariant> def_form_helper(const std::vector<std::share
 	{
 		throw LispException("Symbol expected", scope.get());
 	}
+	if (LispEnvironment::IsReservedName(symbol->ToString()))
+	{
+		throw LispException("Reserved symbol " + symbol->ToString(), scope.get());
+	}
 	var value = LispInterpreter::EvalAstToValue(args[1], scope);
 	var ret = std::make_shared<object>(*value);
 	(*scopeToSet)[symbol->ToString()] = ret;
@@ -391,6 +395,10 @@ static std::shared_ptr<LispVariant> Vars(const std::vector<std::shared_ptr<objec
 
 static std::shared_ptr<LispVariant> DelVar(const std::vector<std::shared_ptr<object>> & args, std::shared_ptr<LispScope> scope)
 {
+	if (args.size() == 1 && LispEnvironment::IsReservedName(args[0]->ToString()))
+	{
+		return std::make_shared<LispVariant>(LispVariant(std::make_shared<object>(false)));
+	}
 	return FuelFuncWrapper1<LispVariant, bool>(args, scope, "delvar", [scope](const LispVariant &arg1) -> bool { return scope->Remove(arg1.ToString()); });
 }
 
@@ -1918,6 +1926,10 @@ std::shared_ptr<LispVariant> fn_form(const std::vector<std::shared_ptr<object>>
 
 		for(var arg : formalArgs)
 		{
+			if (LispEnvironment::IsReservedName(arg->ToString()))
+			{
+				throw LispException("Reserved symbol " + arg->ToString(), scope.get());
+			}
 			(*childScope)[arg->ToString()] = tempLocalArgs[i];
 			i++;
 		}
@@ -2185,6 +2197,11 @@ std::shared_ptr<object> LispEnvironment::GetMacro(std::shared_ptr<object> funcNa
 	return QueryItem(funcName, scope, Macros);
 }
 
+bool LispEnvironment::IsReservedName(const string & name)
+{
+	return name.StartsWith(MetaTag);
+}
+
 bool LispEnvironment::IsExpression(std::shared_ptr<object> item)
 {
 	return (item->IsLispVariant() /*is LispVariant*/ && item->IsList()) ||
diff --git a/CppLisp/CppLispInterpreter/Environment.h b/CppLisp/CppLispInterpreter/Environment.h
index fc05c09..f6d3912 100644
--- a/CppLisp/CppLispInterpreter/Environment.h
+++ b/CppLisp/CppLispInterpreter/Environment.h
@@ -107,6 +107,8 @@ namespace CppLisp
 			
 		static bool IsInModules(const string & funcName, std::shared_ptr<LispScope> scope);
 		static bool IsMacro(std::shared_ptr<object> funcName, std::shared_ptr<LispScope> scope);
+		static bool IsReservedName(const string & name);
+
 		static bool IsExpression(std::shared_ptr<object> item);
 		static bool FindFunctionInModules(const string & funcName, std::shared_ptr<LispScope> scope, std::shared_ptr<object> & foundValue);
 
diff --git a/CppLisp/CppLispInterpreter/Scope.cpp b/CppLisp/CppLispInterpreter/Scope.cpp
index 75a3de3..e8efc3f 100644
--- a/CppLisp/CppLispInterpreter/Scope.cpp
+++ b/CppLisp/CppLispInterpreter/Scope.cpp
@@ -96,6 +96,11 @@ namespace CppLisp
 		var name = elem->ToString();
 		std::shared_ptr<LispScope> foundClosureScope;
 		std::shared_ptr<object> value;
+		// the internal data of the interpreter is not visible for scripts
+		if (LispEnvironment::IsReservedName(name))
+		{
+			return elem;
+		}
 		// first try to resolve in this scope
 		auto item = find(name);
 		if (item != end())
@@ -138,6 +143,10 @@ namespace CppLisp
 	void LispScope::SetInScopes(const string & symbolName, std::shared_ptr<object> value)
 	{
 		std::shared_ptr<LispScope> foundClosureScope;
+		if (LispEnvironment::IsReservedName(symbolName))
+		{
+			throw LispException("Reserved symbol " + symbolName, this);
+		}
 		if (!string::IsNullOrEmpty(symbolName) && ContainsKey(symbolName))
 		{
 			(*this)[symbolName] = value;
-- 
2.43.0

