From 9ee1fa0b1e192825f4e4567272e9f23a96383e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:36 +0000
Subject: [PATCH 001/104] fix: load boolean array elements and members as one
 cell in VM code

---
 libs/compiler/codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index e27ba7d..f8b4337 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -456,7 +456,7 @@ static void emit_load_of_lvalue(encoder *const enc, lvalue value)
 			}
 			else if (!type_is_array(enc->sx, value.type) && !type_is_pointer(enc->sx, value.type))
 			{
-				mem_add(enc, type_is_integer(enc->sx, value.type) ? IC_LAT : IC_LATD);
+				mem_add(enc, type_is_floating(enc->sx, value.type) ? IC_LATD : IC_LAT);
 			}
 
 			return;
-- 
2.43.0


From 58bb4db7fe0d9400348cf4b628ffcc3ea558f390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:36 +0000
Subject: [PATCH 002/104] fix: load pointers reached through an address when
 they are used, not when they are assigned

---
 libs/compiler/codegen.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index f8b4337..56b1ab5 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -454,7 +454,7 @@ static void emit_load_of_lvalue(encoder *const enc, lvalue value)
 				mem_add(enc, IC_COPY1ST);
 				mem_add(enc, (item_t)type_size(enc->sx, value.type));
 			}
-			else if (!type_is_array(enc->sx, value.type) && !type_is_pointer(enc->sx, value.type))
+			else if (!type_is_array(enc->sx, value.type))
 			{
 				mem_add(enc, type_is_floating(enc->sx, value.type) ? IC_LATD : IC_LAT);
 			}
@@ -539,7 +539,7 @@ static lvalue emit_member_lvalue(encoder *const enc, const node *const nd)
 		emit_expression(enc, &base);
 		mem_add(enc, IC_SELECT);
 		mem_add(enc, member_displ);
-		if (type_is_array(enc->sx, type) || type_is_pointer(enc->sx, type))
+		if (type_is_array(enc->sx, type))
 		{
 			mem_add(enc, IC_LAT);
 		}
@@ -559,7 +559,7 @@ static lvalue emit_member_lvalue(encoder *const enc, const node *const nd)
 			mem_add(enc, IC_SELECT);
 			mem_add(enc, member_displ);
 
-			if (type_is_array(enc->sx, type) || type_is_pointer(enc->sx, type))
+			if (type_is_array(enc->sx, type))
 			{
 				mem_add(enc, IC_LAT);
 			}
@@ -582,12 +582,7 @@ static lvalue emit_indirection_lvalue(encoder *const enc, const node *const nd)
 	const item_t type = expression_get_type(nd);
 	const item_t unqualified_type = type_is_const(enc->sx, type) ? type_const_get_unqualified_type(enc->sx, type) : type;
 	const node operand = expression_unary_get_operand(nd);
-	const lvalue value = emit_lvalue(enc, &operand);
-	if (value.kind == VARIABLE)
-	{
-		mem_add(enc, IC_LOAD);
-		mem_add(enc, value.displ);
-	}
+	emit_expression(enc, &operand);
 
 	return (lvalue){ .kind = ADDRESS, .type = unqualified_type };
 }
-- 
2.43.0


From 25bc053f5f4e1a1f9ad077a6a2789147676037b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:36 +0000
Subject: [PATCH 003/104] fix: use void versions of %=, <<=, >>=, &=, ^= and |=
 when the result is not used

---
 libs/compiler/instructions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/instructions.c b/libs/compiler/instructions.c
index 764cdaf..f52e03b 100644
--- a/libs/compiler/instructions.c
+++ b/libs/compiler/instructions.c
@@ -166,7 +166,7 @@ instruction_t instruction_to_floating_ver(const instruction_t instruction)
 
 instruction_t instruction_to_void_ver(const instruction_t instruction)
 {
-	return (instruction >= IC_ASSIGN && instruction <= IC_DIV_ASSIGN_AT)
+	return (instruction >= IC_REM_ASSIGN && instruction <= IC_DIV_ASSIGN_AT)
 		|| (instruction >= IC_POST_INC && instruction <= IC_PRE_DEC_AT)
 		|| (instruction >= IC_ASSIGN_R && instruction <= IC_DIV_ASSIGN_AT_R)
 		|| (instruction >= IC_POST_INC_R && instruction <= IC_PRE_DEC_AT_R)
-- 
2.43.0


From 343103d9fccc73685c72dc45d9359ffd31af775c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:03 +0000
Subject: [PATCH 004/104] fix: fall through case labels and honour default
 wherever it stands in VM code

---
 libs/compiler/codegen.c | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index 56b1ab5..25175c3 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -73,6 +73,7 @@ typedef struct encoder
 
 	size_t addr_cond;				/**< Condition address */
 	size_t addr_case;				/**< Case operator address */
+	size_t addr_default;			/**< Default operator address */
 	size_t addr_break;				/**< Break operator address */
 
 	item_t displ;					/**< Current stack displacement */
@@ -1660,11 +1661,11 @@ static void emit_declaration_statement(encoder *const enc, const node *const nd)
  */
 static void emit_case_statement(encoder *const enc, const node *const nd)
 {
-	if (enc->addr_case != 0)
-	{
-		mem_set(enc, enc->addr_case, (item_t)mem_size(enc));
-	}
+	// Control flow from the previous statement should skip the check
+	mem_add(enc, IC_B);
+	const size_t addr_substmt = mem_reserve(enc);
 
+	mem_set(enc, enc->addr_case, (item_t)mem_size(enc));
 	mem_add(enc, IC_DUPLICATE);
 
 	const node expr = statement_case_get_expression(nd);
@@ -1673,6 +1674,7 @@ static void emit_case_statement(encoder *const enc, const node *const nd)
 	mem_add(enc, IC_EQ);
 	mem_add(enc, IC_BE0);
 	enc->addr_case = mem_reserve(enc);
+	mem_set(enc, addr_substmt, (item_t)mem_size(enc));
 
 	const node substmt = statement_case_get_substmt(nd);
 	emit_statement(enc, &substmt);
@@ -1686,11 +1688,7 @@ static void emit_case_statement(encoder *const enc, const node *const nd)
  */
 static void emit_default_statement(encoder *const enc, const node *const nd)
 {
-	if (enc->addr_case != 0)
-	{
-		mem_set(enc, enc->addr_case, (item_t)mem_size(enc));
-	}
-	enc->addr_case = 0;
+	enc->addr_default = mem_size(enc);
 
 	const node substmt = statement_default_get_substmt(nd);
 	emit_statement(enc, &substmt);
@@ -1756,22 +1754,23 @@ static void emit_switch_statement(encoder *const enc, const node *const nd)
 {
 	const size_t old_addr_break = enc->addr_break;
 	const size_t old_addr_case = enc->addr_case;
+	const size_t old_addr_default = enc->addr_default;
 	enc->addr_break = 0;
-	enc->addr_case = 0;
+	enc->addr_default = 0;
 
 	const node condition = statement_switch_get_condition(nd);
 	emit_expression(enc, &condition);
 
+	mem_add(enc, IC_B);
+	enc->addr_case = mem_reserve(enc);
+
 	const node body = statement_switch_get_body(nd);
 	emit_statement(enc, &body);
 
-	if (enc->addr_case > 0)
-	{
-		mem_set(enc, enc->addr_case, (item_t)mem_size(enc));
-	}
-
+	mem_set(enc, enc->addr_case, (item_t)(enc->addr_default != 0 ? enc->addr_default : mem_size(enc)));
 	addr_end_break(enc);
 
+	enc->addr_default = old_addr_default;
 	enc->addr_case = old_addr_case;
 	enc->addr_break = old_addr_break;
 }
-- 
2.43.0


From 7561a708eb4fed4a908a463c54c7b31ff38bba03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:03 +0000
Subject: [PATCH 005/104] fix: leave a boolean on the stack when || skips its
 right operand in VM code

---
 libs/compiler/codegen.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index 25175c3..0738f8c 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -1095,6 +1095,13 @@ static void emit_binary_expression(encoder *const enc, const node *const nd)
 		const bool is_logical = operator == BIN_LOG_AND || operator == BIN_LOG_OR;
 		if (is_logical)
 		{
+			if (operator == BIN_LOG_OR && !type_is_boolean(enc->sx, expression_get_type(&LHS)))
+			{
+				// Skipping RHS leaves the value of LHS as a result, so it should be boolean
+				mem_add(enc, IC_LOG_NOT);
+				mem_add(enc, IC_LOG_NOT);
+			}
+
 			mem_add(enc, IC_DUPLICATE);
 			mem_add(enc, operator == BIN_LOG_AND ? IC_BE0 : IC_BNE0);
 			addr = mem_reserve(enc);
-- 
2.43.0


From 8f0e071c5dbe9f17b0c17757331be0b416503c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 006/104] fix: pass functions that are declared but not yet
 defined as arguments in VM code

---
 libs/compiler/codegen.c | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/libs/compiler/codegen.c b/libs/compiler/codegen.c
index 0738f8c..91eb9e1 100644
--- a/libs/compiler/codegen.c
+++ b/libs/compiler/codegen.c
@@ -232,17 +232,15 @@ static inline void functions_add(encoder *const enc, const size_t identifier, co
 }
 
 /**
- *	Get function displacement
+ *	Check that function is a parameter of currently emitted function
  *
  *	@param	enc			Encoder
  *	@param	identifier	Function identifier
  *
- *	@return	Funciton displacement
+ *	@return	@c 1 on true, @c 0 on false
  */
-static inline item_t functions_get(encoder *const enc, const size_t identifier)
+static inline bool functions_is_parameter(const encoder *const enc, const size_t identifier)
 {
-	const item_t displ = vector_get(&enc->displacements, identifier);
-
 	if (enc->curr_func)
 	{
 		const size_t parameters_amount = declaration_function_get_parameters_amount(enc->curr_func);
@@ -251,11 +249,31 @@ static inline item_t functions_get(encoder *const enc, const size_t identifier)
 			const size_t parameter = declaration_function_get_parameter(enc->curr_func, i);
 			if (identifier == parameter)
 			{
-				return displ;
+				return true;
 			}
 		}
 	}
 
+	return false;
+}
+
+/**
+ *	Get function displacement
+ *
+ *	@param	enc			Encoder
+ *	@param	identifier	Function identifier
+ *
+ *	@return	Funciton displacement
+ */
+static inline item_t functions_get(encoder *const enc, const size_t identifier)
+{
+	const item_t displ = vector_get(&enc->displacements, identifier);
+
+	if (functions_is_parameter(enc, identifier))
+	{
+		return displ;
+	}
+
 	if (displ <= 0)
 	{
 		vector_set(&enc->displacements, identifier, -(item_t)mem_size(enc));
@@ -720,8 +738,9 @@ static void emit_argument(encoder *const enc, const node *const nd)
 	if (type_is_function(enc->sx, arg_type))
 	{
 		const size_t identifier = expression_identifier_get_id(nd);
-		const item_t displ = displacements_get(enc, identifier);
-		mem_add(enc, displ >= 0 ? IC_LI : IC_LOAD);
+		mem_add(enc, functions_is_parameter(enc, identifier) ? IC_LOAD : IC_LI);
+
+		const item_t displ = functions_get(enc, identifier);
 		mem_add(enc, abs(displ));
 	}
 	else if (expression_get_class(nd) == EXPR_INITIALIZER)
-- 
2.43.0


From bf71292553b3dfb863e8badf0d0507278f0da1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:54 +0000
Subject: [PATCH 007/104] fix: keep constant types with different underlying
 types apart

---
 libs/compiler/syntax.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/libs/compiler/syntax.c b/libs/compiler/syntax.c
index d49c94a..0900191 100644
--- a/libs/compiler/syntax.c
+++ b/libs/compiler/syntax.c
@@ -128,11 +128,6 @@ static inline bool type_is_equal(const syntax *const sx, const size_t first, con
 	size_t length = 1;
 	const item_t type = vector_get(&sx->types, first);
 
-	if (type == TYPE_CONST)
-	{
-		return type_is_equal(sx, type_const_get_unqualified_type(sx, first), type_const_get_unqualified_type(sx, second));
-	}
-
 	// Определяем, сколько полей надо сравнивать для различных типов записей
 	if (type == TYPE_STRUCTURE || type == TYPE_FUNCTION)
 	{
-- 
2.43.0


From 18cbacccdfe04c1be4ee1f7f52d7715596e2fec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:43 +0000
Subject: [PATCH 008/104] fix: read integer literals that overflow and huge
 exponents

---
 libs/compiler/lexer.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index 28167ed..ac7248a 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -221,9 +221,7 @@ static token lex_numeric_literal(lexer *const lxr)
 			return token_int_literal((location){ loc_begin, loc_end }, int_value);
 		}
 
-		if ((base == 2 && int_value >= 0x8000000000000000)
-			|| (base == 8 && int_value >= 0x2000000000000000)
-			|| (int_value >= 0x1000000000000000))
+		if (is_integer && int_value >= 0x1000000000000000)
 		{
 			// Переполнение хранилища - конвертируем в double
 			float_value = (double)int_value;
@@ -302,15 +300,29 @@ static token lex_numeric_literal(lexer *const lxr)
 
 		while (utf8_is_digit(lxr->character))
 		{
-			power = power * 10 + utf8_to_number(lxr->character);
+			// Больший показатель все равно выходит за пределы представимых значений
+			if (power < 10000)
+			{
+				power = power * 10 + utf8_to_number(lxr->character);
+			}
 			scan(lxr);
 		}
 
 		if (is_integer)
 		{
-			for (int64_t i = 0; i < power; i++)
+			float_value = (double)int_value;
+			for (int64_t i = 0; i < power && int_value != 0 && is_integer; i++)
 			{
-				int_value *= 10;
+				if (int_value >= 0x1000000000000000)
+				{
+					// Переполнение хранилища - конвертируем в double
+					is_in_range = false;
+					is_integer = false;
+				}
+				else
+				{
+					int_value *= 10;
+				}
 			}
 		}
 
-- 
2.43.0


From 8a1978c24edb53764da29c789b339731f5759514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:56 +0000
Subject: [PATCH 009/104] fix: round floating literals to the nearest value

---
 libs/compiler/lexer.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index ac7248a..0bd648a 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -197,6 +197,7 @@ static token lex_numeric_literal(lexer *const lxr)
 	double float_value = 0.0;
 	bool is_in_range = true;
 	bool is_integer = true;
+	int64_t exponent = 0;	// Порядок, на который нужно умножить прочитанные цифры
 
 	while (utf8_is_hexa_digit(lxr->character))
 	{
@@ -250,13 +251,16 @@ static token lex_numeric_literal(lexer *const lxr)
 		}
 
 		is_integer = false;
-		double position_mult = 0.1;
 		// Читаем только десятичные цифры
 		// Все остальное относится к следюущим токенам
 		while (utf8_is_digit(scan(lxr)))
 		{
-			float_value += utf8_to_number(lxr->character) * position_mult;
-			position_mult *= 0.1;
+			// Дальнейшие цифры не влияют на значение
+			if (float_value < 1e17)
+			{
+				float_value = float_value * 10 + utf8_to_number(lxr->character);
+				exponent--;
+			}
 		}
 	}
 
@@ -326,7 +330,15 @@ static token lex_numeric_literal(lexer *const lxr)
 			}
 		}
 
-		float_value *= pow(10.0, sign * (double)power);
+		exponent += sign * power;
+	}
+
+	if (float_value != 0.0)
+	{
+		// Деление на точную степень точнее умножения на приближенную
+		float_value = exponent < 0 && exponent >= -DBL_MAX_10_EXP
+			? float_value / pow(10.0, (double)-exponent)
+			: float_value * pow(10.0, (double)exponent);
 	}
 
 	// Формируем результат
-- 
2.43.0


From 8e615b7110392e584ca1e0bbfa810c06594c3426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:24 +0000
Subject: [PATCH 010/104] fix: report errors located at an empty line

---
 libs/utils/locator.c | 1 +
 libs/utils/logger.c  | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/utils/locator.c b/libs/utils/locator.c
index 9d035bb..baaf1a4 100644
--- a/libs/utils/locator.c
+++ b/libs/utils/locator.c
@@ -403,6 +403,7 @@ size_t loc_get_code_line(location *const loc, char *const buffer)
 	in_set_position(loc->io, loc->code);
 
 	size_t size = 0;
+	buffer[size] = '\0';
 	char32_t character = uni_scan_char(loc->io);
 	while (character != '\n' && character != (char32_t)EOF)
 	{
diff --git a/libs/utils/logger.c b/libs/utils/logger.c
index feef1c3..47c89e0 100644
--- a/libs/utils/logger.c
+++ b/libs/utils/logger.c
@@ -303,12 +303,14 @@ static inline void log_auto(const logger func, location *const loc, const char *
 
 	char tag[MAX_MSG_SIZE];
 	char line[MAX_MSG_SIZE];
-	if (!loc_get_tag(loc, tag) || !loc_get_code_line(loc, line))
+	if (!loc_get_tag(loc, tag))
 	{
 		current_error_log(TAG_LOGGER, ERROR_LOGGER_NO_LOCATION);
 		return;
 	}
 
+	loc_get_code_line(loc, line);
+
 	char buffer[MAX_MSG_SIZE];
 	splice(buffer, msg, line, loc_get_index(loc));
 
-- 
2.43.0


From 62e3c820d0d244236478fd5d504795f549649b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:14 +0000
Subject: [PATCH 011/104] fix: keep diagnostics about long lines inside their
 buffers

---
 libs/utils/locator.c |  5 +++--
 libs/utils/locator.h |  2 +-
 libs/utils/logger.c  | 10 ++++++++--
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/libs/utils/locator.c b/libs/utils/locator.c
index baaf1a4..516178f 100644
--- a/libs/utils/locator.c
+++ b/libs/utils/locator.c
@@ -24,6 +24,7 @@
 
 
 #define MAX_PATH 1024
+#define MAX_LINE 2048
 
 
 static const size_t FIRST_LINE = 1;
@@ -405,7 +406,7 @@ size_t loc_get_code_line(location *const loc, char *const buffer)
 	size_t size = 0;
 	buffer[size] = '\0';
 	char32_t character = uni_scan_char(loc->io);
-	while (character != '\n' && character != (char32_t)EOF)
+	while (character != '\n' && character != (char32_t)EOF && size < MAX_LINE)
 	{
 		size += utf8_to_string(&buffer[size], character);
 		character = uni_scan_char(loc->io);
@@ -432,7 +433,7 @@ size_t loc_get_path(location *const loc, char *const buffer)
 
 	size_t size = 0;
 	char32_t character = uni_scan_char(loc->io);
-	while (character != (char32_t)QUOTE && size < MAX_PATH)
+	while (character != (char32_t)QUOTE && character != (char32_t)EOF && size < MAX_PATH - MAX_SYMBOL_SIZE)
 	{
 		size += utf8_to_string(&buffer[size], character);
 		character = uni_scan_char(loc->io);
diff --git a/libs/utils/locator.h b/libs/utils/locator.h
index 0b817b7..462c2db 100644
--- a/libs/utils/locator.h
+++ b/libs/utils/locator.h
@@ -155,7 +155,7 @@ EXPORTED size_t loc_get_tag(location *const loc, char *const buffer);
  *	Get current code line
  *
  *	@param	loc			Location
- *	@param	buffer		Code line entry location
+ *	@param	buffer		Code line entry location, line will be cut off after 2048 bytes
  *
  *	@return Size of code line
  */
diff --git a/libs/utils/logger.c b/libs/utils/logger.c
index 47c89e0..e71b4f1 100644
--- a/libs/utils/logger.c
+++ b/libs/utils/logger.c
@@ -37,6 +37,7 @@
 #endif
 
 #define MAX_MSG_SIZE 4096
+#define MAX_LINE_SIZE 1024
 
 static const char *const TAG_LOGGER = "logger";
 
@@ -243,15 +244,20 @@ static inline size_t length(const char *const line, const size_t size, const siz
 
 static void splice(char *const buffer, const char *const msg, const char *const line, const size_t symbol)
 {
-	size_t cur = (size_t)sprintf(buffer, "%s\n", msg);
+	size_t cur = (size_t)sprintf(buffer, "%.*s\n", MAX_MSG_SIZE - 3 * MAX_LINE_SIZE, msg);
 
 	size_t size = 0;
-	while (line[size] != '\0' && line[size] != '\n')
+	while (line[size] != '\0' && line[size] != '\n' && size < MAX_LINE_SIZE)
 	{
 		cur += (size_t)sprintf(&buffer[cur], "%c", line[size]);
 		size++;
 	}
 
+	if (symbol >= size)
+	{
+		return;
+	}
+
 	const size_t ch = literal(line, symbol);
 	const size_t len = length(line, size, ch);
 	if (len == 0)
-- 
2.43.0


From c06b8c0937ab8b6d903b5ba364feb2a485f10656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:43 +0000
Subject: [PATCH 012/104] fix: keep messages about long names inside their
 buffers

---
 libs/compiler/errors.c |  6 +++---
 libs/macro/error.c     | 22 +++++++++++-----------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/libs/compiler/errors.c b/libs/compiler/errors.c
index 53f6544..7353dc8 100644
--- a/libs/compiler/errors.c
+++ b/libs/compiler/errors.c
@@ -310,7 +310,7 @@ static void get_error(const err_t num, char *const msg, va_list args)
 			sprintf(msg, "в каждой программе должна быть ГЛАВНАЯ функция");
 			break;
 		case predef_but_notdef: // need_test
-			sprintf(msg, "функция %s была предопределена, но не описана", va_arg(args, char *));
+			sprintf(msg, "функция %.256s была предопределена, но не описана", va_arg(args, char *));
 			break;
 
 		// Other errors
@@ -340,10 +340,10 @@ static void get_error(const err_t num, char *const msg, va_list args)
 				"идентификаторов-параметров), а тут тело функции");
 			break;
 		case repeated_decl:	// test_exist
-			sprintf(msg, "повторное описание идентификатора %s", va_arg(args, char *));
+			sprintf(msg, "повторное описание идентификатора %.256s", va_arg(args, char *));
 			break;
 		case ident_is_not_declared: // test_exist
-			sprintf(msg, "не описан идентификатор %s", va_arg(args, char *));
+			sprintf(msg, "не описан идентификатор %.256s", va_arg(args, char *));
 			break;
 		case not_const_int_expr:
 			sprintf(msg, "должно быть константное выражение типа int");
diff --git a/libs/macro/error.c b/libs/macro/error.c
index 24f53b2..c4ba36e 100644
--- a/libs/macro/error.c
+++ b/libs/macro/error.c
@@ -100,7 +100,7 @@ static void get_error(const error_t num, char *const msg, va_list args)
 		case DIRECTIVE_INVALID:
 		{
 			const char *const directive = va_arg(args, char *);
-			sprintf(msg, "неизвестная директива препроцессора %s", directive);
+			sprintf(msg, "неизвестная директива препроцессора %.1024s", directive);
 		}
 		break;
 		case DIRECTIVE_FORBIDDEN:
@@ -163,7 +163,7 @@ static void get_error(const error_t num, char *const msg, va_list args)
 		case ARGS_DUPLICATE:
 		{
 			const char *const name = va_arg(args, char *);
-			sprintf(msg, "дублирующий макро параметр " QUOTE "%s" QUOTE, name);
+			sprintf(msg, "дублирующий макро параметр " QUOTE "%.1024s" QUOTE, name);
 		}
 		break;
 		case ARGS_EXPECTED_NAME:
@@ -203,7 +203,7 @@ static void get_error(const error_t num, char *const msg, va_list args)
 		case ARGS_UNTERMINATED:
 		{
 			const char *const name = va_arg(args, char *);
-			sprintf(msg, "незавершённый список аргументов, вызываемый макрос " QUOTE "%s" QUOTE, name);
+			sprintf(msg, "незавершённый список аргументов, вызываемый макрос " QUOTE "%.1024s" QUOTE, name);
 		}
 		break;
 		case ARGS_REQUIRES:
@@ -216,7 +216,7 @@ static void get_error(const error_t num, char *const msg, va_list args)
 			const bool many = expected % 10 == 0 || expected % 10 >= 5
 				|| (expected % 100 >= 11 && expected % 100 <= 14);
 
-			sprintf(msg, "макросу " QUOTE "%s" QUOTE " требуется %zu аргумент%s, но передан%s только %zu"
+			sprintf(msg, "макросу " QUOTE "%.1024s" QUOTE " требуется %zu аргумент%s, но передан%s только %zu"
 					, name, expected, one ? "" : many ? "ов" : "а"
 					, actual % 10 == 1 && actual % 100 != 11 ? "" : "о", actual);
 		}
@@ -231,14 +231,14 @@ static void get_error(const error_t num, char *const msg, va_list args)
 			const bool many = actual % 10 == 0 || actual % 10 >= 5
 				|| (actual % 100 >= 11 && actual % 100 <= 14);
 
-			sprintf(msg, "макросу " QUOTE "%s" QUOTE " передан%s %zu аргумент%s, но принимает он только %zu"
+			sprintf(msg, "макросу " QUOTE "%.1024s" QUOTE " передан%s %zu аргумент%s, но принимает он только %zu"
 					, name, one ? "" : "о", actual, one ? "" : many ? "ов" : "а", expected);
 		}
 		break;
 		case ARGS_NON:
 		{
 			const char *const name = va_arg(args, char *);
-			sprintf(msg, "макросу " QUOTE "%s" QUOTE " не передано аргументов", name);
+			sprintf(msg, "макросу " QUOTE "%.1024s" QUOTE " не передано аргументов", name);
 		}
 		break;
 
@@ -248,19 +248,19 @@ static void get_error(const error_t num, char *const msg, va_list args)
 		case EXPR_INVALID_SUFFIX:
 		{
 			const char *const suffix = va_arg(args, char *);
-			sprintf(msg, "недопустимый суффикс " QUOTE "%s" QUOTE " в целочисленной константе", suffix);
+			sprintf(msg, "недопустимый суффикс " QUOTE "%.1024s" QUOTE " в целочисленной константе", suffix);
 		}
 		break;
 		case EXPR_INVALID_TOKEN:
 		{
 			const char *const token = va_arg(args, char *);
-			sprintf(msg, "недопустимый токен " QUOTE "%s" QUOTE " в выражении препроцессора", token);
+			sprintf(msg, "недопустимый токен " QUOTE "%.1024s" QUOTE " в выражении препроцессора", token);
 		}
 		break;
 		case EXPR_MISSING_BINARY:
 		{
 			const char *const operator = va_arg(args, char *);
-			sprintf(msg, "пропущен бинарный оператор перед токеном " QUOTE "%s" QUOTE, operator);
+			sprintf(msg, "пропущен бинарный оператор перед токеном " QUOTE "%.1024s" QUOTE, operator);
 		}
 		break;
 		case EXPR_MISSING_BRACKET:
@@ -304,13 +304,13 @@ static void get_warning(const warning_t num, char *const msg, va_list args)
 		case MACRO_NAME_UNDEFINED:
 		{
 			const char *const name = va_arg(args, char *);
-			sprintf(msg, "макрос " QUOTE "%s" QUOTE " не определён", name);
+			sprintf(msg, "макрос " QUOTE "%.1024s" QUOTE " не определён", name);
 		}
 		break;
 		case MACRO_NAME_REDEFINE:
 		{
 			const char *const name = va_arg(args, char *);
-			sprintf(msg, "макрос " QUOTE "%s" QUOTE " уже существует", name);
+			sprintf(msg, "макрос " QUOTE "%.1024s" QUOTE " уже существует", name);
 		}
 		break;
 
-- 
2.43.0


From c490959e0ae59e51d7a2ecc02650c835c24f93f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:41 +0000
Subject: [PATCH 013/104] fix: allow any number of structure members,
 enumerators and parameters

---
 libs/compiler/parser.c | 37 +++++++++++++++++++++++--------------
 libs/compiler/syntax.c | 21 ++++++++++++---------
 2 files changed, 35 insertions(+), 23 deletions(-)

diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index 9b6f1a5..dfee8bd 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -1070,9 +1070,9 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 		return TYPE_UNDEFINED;
 	}
 
-	size_t local_md = 2;
 	item_t field_value = 0;
-	item_t local_modetab[100];
+	vector local_modetab = vector_create(100);
+	vector_increase(&local_modetab, 2);
 
 	const item_t type = type_add(prs->sx, (item_t[]){ TYPE_ENUM }, 1);
 
@@ -1105,6 +1105,7 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 			if (field_value == INT_MAX || (type_expr != TYPE_INTEGER && type_expr != type))
 			{
 				parser_error(prs, not_const_int_expr);
+				vector_clear(&local_modetab);
 				return TYPE_UNDEFINED;
 			}
 			parse_init_enum_field_declarator(prs, -type, field_value++, name);
@@ -1114,8 +1115,8 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 			parse_init_enum_field_declarator(prs, -type, field_value++, name);
 		}
 
-		local_modetab[local_md++] = field_value - 1;
-		local_modetab[local_md++] = (item_t)name;
+		vector_add(&local_modetab, field_value - 1);
+		vector_add(&local_modetab, (item_t)name);
 		if (token_is(&prs->tk, TK_R_BRACE))
 		{
 			continue;
@@ -1123,10 +1124,11 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 		expect_and_consume(prs, TK_COMMA, no_comma_in_enum);
 	} while (!try_consume_token(prs, TK_R_BRACE));
 
-	local_modetab[1] = (item_t)(local_md - 2);
-	local_modetab[0] = local_modetab[2] / 2;
+	vector_set(&local_modetab, 1, (item_t)vector_size(&local_modetab) - 2);
+	vector_set(&local_modetab, 0, vector_get(&local_modetab, 2) / 2);
 
-	type_enum_add_fields(prs->sx, local_modetab, local_md);
+	type_enum_add_fields(prs->sx, local_modetab.array, vector_size(&local_modetab));
+	vector_clear(&local_modetab);
 	return type;
 }
 
@@ -1869,8 +1871,8 @@ static node parse_statement(parser *const prs)
  */
 static item_t parse_function_declarator(parser *const prs, const int level, int func_def, const item_t return_type)
 {
-	item_t local_modetab[100];
-	size_t local_md = 3;
+	vector local_modetab = vector_create(100);
+	vector_increase(&local_modetab, 3);
 	size_t args = 0;
 
 	if (try_consume_token(prs, TK_R_PAREN))
@@ -1914,6 +1916,7 @@ static item_t parse_function_declarator(parser *const prs, const int level, int
 				parser_error(prs, ident_in_declarator);
 				skip_until(prs, TK_R_PAREN | TK_SEMICOLON);
 				try_consume_token(prs, TK_R_PAREN);
+				vector_clear(&local_modetab);
 				return TYPE_UNDEFINED;
 			}
 
@@ -1956,6 +1959,7 @@ static item_t parse_function_declarator(parser *const prs, const int level, int
 						else
 						{
 							parser_error(prs, two_idents_for_1_declarer);
+							vector_clear(&local_modetab);
 							return TYPE_UNDEFINED;
 						}
 						func_add(prs->sx, -((item_t)token_get_ident_name(&prs->tk)));
@@ -1964,6 +1968,7 @@ static item_t parse_function_declarator(parser *const prs, const int level, int
 					else
 					{
 						parser_error(prs, ident_in_declarator);
+						vector_clear(&local_modetab);
 						return TYPE_UNDEFINED;
 					}
 				}
@@ -1999,28 +2004,32 @@ static item_t parse_function_declarator(parser *const prs, const int level, int
 					skip_until(prs, TK_R_BRACE);
 					try_consume_token(prs, TK_R_BRACE);
 				}
+				vector_clear(&local_modetab);
 				return TYPE_UNDEFINED;
 			}
 			else if (func_def == 1 && !was_ident)
 			{
 				parser_error(prs, wait_definition);
 				skip_until(prs, TK_R_PAREN | TK_SEMICOLON);
+				vector_clear(&local_modetab);
 				return TYPE_UNDEFINED;
 			}
 
 			args++;
-			local_modetab[local_md++] = type;
+			vector_add(&local_modetab, type);
 		} while (try_consume_token(prs, TK_COMMA));
 
 		expect_and_consume(prs, TK_R_PAREN, wrong_param_list);
 		prs->func_def = func_def;
 	}
 
-	local_modetab[0] = TYPE_FUNCTION;
-	local_modetab[1] = return_type;
-	local_modetab[2] = (item_t)args;
+	vector_set(&local_modetab, 0, TYPE_FUNCTION);
+	vector_set(&local_modetab, 1, return_type);
+	vector_set(&local_modetab, 2, (item_t)args);
 
-	return type_add(prs->sx, local_modetab, local_md);
+	const item_t type = type_add(prs->sx, local_modetab.array, vector_size(&local_modetab));
+	vector_clear(&local_modetab);
+	return type;
 }
 
 /**
diff --git a/libs/compiler/syntax.c b/libs/compiler/syntax.c
index 0900191..5473aac 100644
--- a/libs/compiler/syntax.c
+++ b/libs/compiler/syntax.c
@@ -715,25 +715,28 @@ item_t type_array_get_element_type(const syntax *const sx, const item_t type)
 
 item_t type_structure(syntax *const sx, vector *const types, vector *const names)
 {
-	item_t local_modetab[100];
-	size_t local_md = 3;
-
 	const size_t members = vector_size(types);
+	vector local_modetab = vector_create(3 + 2 * members);
+	vector_increase(&local_modetab, 3);
+
 	item_t displ = 0;
 	for (size_t i = 0; i < members; i++)
 	{
 		const item_t type = vector_get(types, i);
 		const item_t name = vector_get(names, i);
 
-		local_modetab[local_md++] = type;
-		local_modetab[local_md++] = name;
+		vector_add(&local_modetab, type);
+		vector_add(&local_modetab, name);
 		displ += type_size(sx, type);
 	}
 
-	local_modetab[0] = TYPE_STRUCTURE;
-	local_modetab[1] = (item_t)displ;
-	local_modetab[2] = (item_t)members * 2;
-	return type_add(sx, local_modetab, local_md);
+	vector_set(&local_modetab, 0, TYPE_STRUCTURE);
+	vector_set(&local_modetab, 1, (item_t)displ);
+	vector_set(&local_modetab, 2, (item_t)members * 2);
+
+	const item_t type = type_add(sx, local_modetab.array, vector_size(&local_modetab));
+	vector_clear(&local_modetab);
+	return type;
 }
 
 size_t type_structure_get_member_amount(const syntax *const sx, const item_t type)
-- 
2.43.0


From 9cabc7ba5ca8ebe1444711180f3c90de57ce66fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:54 +0000
Subject: [PATCH 014/104] fix: release the list of included files

---
 libs/macro/linker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/macro/linker.c b/libs/macro/linker.c
index 3e89f65..d8075d3 100644
--- a/libs/macro/linker.c
+++ b/libs/macro/linker.c
@@ -203,7 +203,7 @@ bool linker_is_correct(const linker *const lk)
 
 int linker_clear(linker *const lk)
 {
-	if (lk != NULL)
+	if (lk == NULL)
 	{
 		return -1;
 	}
-- 
2.43.0


From 99dfea5347b21dd5e73af8da2d4e9f0082c6cff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:06 +0000
Subject: [PATCH 015/104] fix: do not shift by the width of the type when
 storing values

---
 libs/utils/item.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libs/utils/item.c b/libs/utils/item.c
index 6e46422..7357055 100644
--- a/libs/utils/item.c
+++ b/libs/utils/item.c
@@ -278,16 +278,13 @@ size_t item_store_int64_for_target(const item_status status, const int64_t value
 							|| status == item_int16 || status == item_int8
 								? (~mask >> 1) & mask  : 0;
 
-	uint64_t temp = mask;
 	for (size_t i = 0; i < size; i++)
 	{
-		stg[i] = (item_t)(((uint64_t)value & temp) >> (shift * i));
+		stg[i] = (item_t)(((uint64_t)value >> (shift * i)) & mask);
 		if ((uint64_t)stg[i] & sign)
 		{
 			stg[i] |= ~mask;
 		}
-
-		temp <<= shift;
 	}
 
 	return size;
-- 
2.43.0


From 6d09466758f17433939b436849248cc1cf764cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:17 +0000
Subject: [PATCH 016/104] fix: assemble doubles for the code listing without
 signed overflow

---
 libs/compiler/writer.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/compiler/writer.c b/libs/compiler/writer.c
index 7c1d886..d15e137 100644
--- a/libs/compiler/writer.c
+++ b/libs/compiler/writer.c
@@ -2033,9 +2033,9 @@ static size_t write_instruction(universal_io *const io, const vector *const tabl
 	{
 		//uni_printf(io, " %f\n", vector_get_double(table, i));
 
-		const int64_t fst = (int64_t)vector_get(table, i) & 0x00000000ffffffff;
-		const int64_t snd = (int64_t)vector_get(table, i + 1) & 0x00000000ffffffff;
-		const int64_t num64 = (snd << 32) | fst;
+		const uint64_t fst = (uint64_t)vector_get(table, i) & 0x00000000ffffffff;
+		const uint64_t snd = (uint64_t)vector_get(table, i + 1) & 0x00000000ffffffff;
+		const uint64_t num64 = (snd << 32) | fst;
 
 		double num;
 		memcpy(&num, &num64, sizeof(double));
-- 
2.43.0


From 6a6c2b23b1c0d3e0cfc3763b7d42c8d4d4775765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:01 +0000
Subject: [PATCH 017/104] fix: do not evaluate undefined operations while
 folding constants

---
 libs/compiler/builder.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index f56c5d7..7a9969e 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -102,13 +102,13 @@ static node fold_unary_expression(builder *const bldr, const item_t type, const
 			switch (op)
 			{
 				case UN_MINUS:
-					return build_integer_literal_expression(bldr, -value, loc);
+					return build_integer_literal_expression(bldr, (item_t)-(uint64_t)value, loc);
 				case UN_NOT:
 					return build_integer_literal_expression(bldr, ~value, loc);
 				case UN_LOGNOT:
 					return build_boolean_literal_expression(bldr, value == 0, loc);
 				case UN_ABS:
-					return build_integer_literal_expression(bldr, value >= 0 ? value : -value, loc);
+					return build_integer_literal_expression(bldr, value >= 0 ? value : (item_t)-(uint64_t)value, loc);
 				default:
 					return node_broken();
 			}
@@ -151,23 +151,31 @@ static node fold_binary_expression(builder *const bldr, const item_t type
 		{
 			const item_t left_value = expression_literal_get_integer(LHS);
 			const item_t right_value = expression_literal_get_integer(RHS);
+
+			// Значение таких выражений не определено, поэтому вычислять их при компиляции нельзя
+			if (((op == BIN_DIV || op == BIN_REM) && (right_value == 0 || (right_value == -1 && left_value < -ITEM_MAX)))
+				|| ((op == BIN_SHL || op == BIN_SHR) && (right_value < 0 || right_value >= 64)))
+			{
+				return expression_binary(type, LHS, RHS, op, loc);
+			}
+
 			node_remove(LHS);
 			node_remove(RHS);
 
 			switch (op)
 			{
 				case BIN_MUL:
-					return build_integer_literal_expression(bldr, left_value * right_value, loc);
+					return build_integer_literal_expression(bldr, (item_t)((uint64_t)left_value * (uint64_t)right_value), loc);
 				case BIN_DIV:
 					return build_integer_literal_expression(bldr, left_value / right_value, loc);
 				case BIN_REM:
 					return build_integer_literal_expression(bldr, left_value % right_value, loc);
 				case BIN_ADD:
-					return build_integer_literal_expression(bldr, left_value + right_value, loc);
+					return build_integer_literal_expression(bldr, (item_t)((uint64_t)left_value + (uint64_t)right_value), loc);
 				case BIN_SUB:
-					return build_integer_literal_expression(bldr, left_value - right_value, loc);
+					return build_integer_literal_expression(bldr, (item_t)((uint64_t)left_value - (uint64_t)right_value), loc);
 				case BIN_SHL:
-					return build_integer_literal_expression(bldr, left_value << right_value, loc);
+					return build_integer_literal_expression(bldr, (item_t)((uint64_t)left_value << right_value), loc);
 				case BIN_SHR:
 					return build_integer_literal_expression(bldr, left_value >> right_value, loc);
 				case BIN_LT:
-- 
2.43.0


From 404da45a67b8e2db280f03434eb9c4fc3edf434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:25 +0000
Subject: [PATCH 018/104] fix: stop parsing structures and enumerations at
 unexpected tokens and the end of file

---
 libs/compiler/parser.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index dfee8bd..fa771df 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -990,7 +990,7 @@ static item_t parse_struct_declaration(parser *const prs, const node *const pare
 	node declaration = build_empty_struct_declaration(&prs->bld, name, struct_loc);
 
 	node_vector members = node_vector_create();
-	while (!try_consume_token(prs, TK_R_BRACE))
+	while (token_is_not(&prs->tk, TK_EOF) && !try_consume_token(prs, TK_R_BRACE))
 	{
 		const node member = parse_member_declaration(prs, &declaration);
 		node_vector_add(&members, &member);
@@ -1082,6 +1082,9 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 		{
 			parser_error(prs, wait_ident_after_comma_in_enum);
 			skip_until(prs, TK_SEMICOLON | TK_R_BRACE);
+			try_consume_token(prs, TK_R_BRACE);
+			vector_clear(&local_modetab);
+			return TYPE_UNDEFINED;
 		}
 
 		const size_t name = token_get_ident_name(&prs->tk);
@@ -1122,7 +1125,7 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 			continue;
 		}
 		expect_and_consume(prs, TK_COMMA, no_comma_in_enum);
-	} while (!try_consume_token(prs, TK_R_BRACE));
+	} while (token_is_not(&prs->tk, TK_EOF) && !try_consume_token(prs, TK_R_BRACE));
 
 	vector_set(&local_modetab, 1, (item_t)vector_size(&local_modetab) - 2);
 	vector_set(&local_modetab, 0, vector_get(&local_modetab, 2) / 2);
-- 
2.43.0


From 2a0eeddf3e2bbf13080fe88c06fdbe2524cbb440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:19 +0000
Subject: [PATCH 019/104] fix: read malformed UTF-8 without losing the position

---
 libs/utils/uniscanner.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libs/utils/uniscanner.c b/libs/utils/uniscanner.c
index 66eaaa9..8eea5ca 100644
--- a/libs/utils/uniscanner.c
+++ b/libs/utils/uniscanner.c
@@ -20,6 +20,9 @@
 #include "utf8.h"
 
 
+static const char32_t SUBSTITUTE = 0x1A;	/**< Replaces the first byte of malformed symbol */
+
+
 int uni_scanf(universal_io *const io, const char *const format, ...)
 {
 	if (!in_is_correct(io))
@@ -45,6 +48,7 @@ char32_t uni_scan_char(universal_io *const io)
 		return (char32_t)EOF;
 	}
 
+	const size_t position = in_get_position(io);
 	const size_t size = utf8_symbol_size(buffer[0]);
 	for (size_t i = 1; i < size; i++)
 	{
@@ -54,7 +58,15 @@ char32_t uni_scan_char(universal_io *const io)
 		}
 	}
 
-	return utf8_convert(buffer);
+	const char32_t character = utf8_convert(buffer);
+	if (utf8_size(character) != size)
+	{
+		// Position after malformed symbol should match its size to be unscanned correctly
+		in_set_position(io, position);
+		return SUBSTITUTE;
+	}
+
+	return character;
 }
 
 size_t uni_scan_number(universal_io *const io, char *const buffer)
-- 
2.43.0


From e20f882b17514f69b2fd4c18d1f1c03b886f8212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:35 +0000
Subject: [PATCH 020/104] fix: negate the operand of '!' in preprocessor
 expressions

---
 libs/macro/computer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/macro/computer.c b/libs/macro/computer.c
index d345b9d..109691f 100644
--- a/libs/macro/computer.c
+++ b/libs/macro/computer.c
@@ -277,7 +277,7 @@ static inline int computer_const_number(computer *const comp, const item_t pos,
 			case TK_NOT:
 				stack_pop(&comp->operators);
 				stack_pop(&comp->operators);
-				num = num != 0 ? 1 : 0;
+				num = num == 0 ? 1 : 0;
 				break;
 			case TK_U_NEGATION:
 				stack_pop(&comp->operators);
-- 
2.43.0


From d4847f19d597d6145cad693e02971d5d4ebafa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:48 +0000
Subject: [PATCH 021/104] fix: apply unary operators to bracketed preprocessor
 expressions

---
 libs/macro/computer.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/libs/macro/computer.c b/libs/macro/computer.c
index 109691f..cceb75c 100644
--- a/libs/macro/computer.c
+++ b/libs/macro/computer.c
@@ -256,15 +256,8 @@ static inline int computer_compare_priority(const item_t fst, const item_t snd)
 	}
 }
 
-static inline int computer_const_number(computer *const comp, const item_t pos, item_t num, const char *const name)
+static inline int computer_select_unary(computer *const comp, item_t num)
 {
-	if (comp->was_number)
-	{
-		computer_error(comp, pos, EXPR_MISSING_BINARY, name);
-		return -1;
-	}
-
-	comp->was_number = true;
 	while (true)
 	{
 		switch (stack_peek(&comp->operators))
@@ -295,6 +288,18 @@ static inline int computer_const_number(computer *const comp, const item_t pos,
 	}
 }
 
+static inline int computer_const_number(computer *const comp, const item_t pos, const item_t num, const char *const name)
+{
+	if (comp->was_number)
+	{
+		computer_error(comp, pos, EXPR_MISSING_BINARY, name);
+		return -1;
+	}
+
+	comp->was_number = true;
+	return computer_select_unary(comp, num);
+}
+
 
 /*
  *	 __     __   __     ______   ______     ______     ______   ______     ______     ______
@@ -345,7 +350,7 @@ int computer_push_token(computer *const comp, const size_t pos, const token_t tk
 	{
 		stack_pop(&comp->operators);
 		stack_pop(&comp->operators);
-		return 0;
+		return computer_select_unary(comp, stack_pop(&comp->numbers));
 	}
 
 	const int priority = computer_compare_priority(previous, tk);
-- 
2.43.0


From 6849c5eb16a40bf8aa657bf179ff31251602f183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:03 +0000
Subject: [PATCH 022/104] fix: report undefined operations in preprocessor
 expressions

---
 libs/macro/computer.c | 34 +++++++++++++++++++++++++---------
 libs/macro/error.c    |  6 ++++++
 libs/macro/error.h    |  2 ++
 3 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/libs/macro/computer.c b/libs/macro/computer.c
index cceb75c..2f3bc76 100644
--- a/libs/macro/computer.c
+++ b/libs/macro/computer.c
@@ -166,7 +166,7 @@ static inline int computer_token_without_number(computer *const comp, const item
 static int computer_select_three(computer *const comp)
 {
 	const token_t operator = stack_pop(&comp->operators);
-	stack_pop(&comp->operators);
+	const item_t pos = stack_pop(&comp->operators);
 
 	const item_t second = stack_pop(&comp->numbers);
 	const item_t first = stack_pop(&comp->numbers);
@@ -174,19 +174,35 @@ static int computer_select_three(computer *const comp)
 	switch(operator)
 	{
 		case TK_MULT:
-			return stack_push(&comp->numbers, first * second);
+			return stack_push(&comp->numbers, (item_t)((uint64_t)first * (uint64_t)second));
 		case TK_DIV:
-			return stack_push(&comp->numbers, first / second);
 		case TK_MOD:
-			return stack_push(&comp->numbers, first % second);
+			if (second == 0)
+			{
+				computer_error(comp, pos, EXPR_DIVISION_BY_ZERO);
+				return stack_push(&comp->numbers, 0);
+			}
+
+			if (second == -1)
+			{
+				return stack_push(&comp->numbers, operator == TK_DIV ? (item_t)(0 - (uint64_t)first) : 0);
+			}
+
+			return stack_push(&comp->numbers, operator == TK_DIV ? first / second : first % second);
 		case TK_ADD:
-			return stack_push(&comp->numbers, first + second);
+			return stack_push(&comp->numbers, (item_t)((uint64_t)first + (uint64_t)second));
 		case TK_SUB:
-			return stack_push(&comp->numbers, first - second);
+			return stack_push(&comp->numbers, (item_t)((uint64_t)first - (uint64_t)second));
 		case TK_L_SHIFT:
-			return stack_push(&comp->numbers, first << second);
 		case TK_R_SHIFT:
-			return stack_push(&comp->numbers, first >> second);
+			if (second < 0 || second >= (item_t)(8 * sizeof(item_t)))
+			{
+				computer_error(comp, pos, EXPR_SHIFT_COUNT);
+				return stack_push(&comp->numbers, 0);
+			}
+
+			return stack_push(&comp->numbers, operator == TK_L_SHIFT
+				? (item_t)((uint64_t)first << second) : first >> second);
 		case TK_LESS:
 			return stack_push(&comp->numbers, first < second ? 1 : 0);
 		case TK_GREATER:
@@ -275,7 +291,7 @@ static inline int computer_select_unary(computer *const comp, item_t num)
 			case TK_U_NEGATION:
 				stack_pop(&comp->operators);
 				stack_pop(&comp->operators);
-				num = -num;
+				num = (item_t)(0 - (uint64_t)num);
 				break;
 			case TK_U_PLUS:
 				stack_pop(&comp->operators);
diff --git a/libs/macro/error.c b/libs/macro/error.c
index c4ba36e..3fb8120 100644
--- a/libs/macro/error.c
+++ b/libs/macro/error.c
@@ -287,6 +287,12 @@ static void get_error(const error_t num, char *const msg, va_list args)
 			sprintf(msg, "в операторе '%s' отсутствует правый операнд", operator);
 		}
 		break;
+		case EXPR_DIVISION_BY_ZERO:
+			sprintf(msg, "деление на ноль в выражении препроцессора");
+			break;
+		case EXPR_SHIFT_COUNT:
+			sprintf(msg, "недопустимая величина сдвига в выражении препроцессора");
+			break;
 
 		default:
 			sprintf(msg, "неизвестная ошибка");
diff --git a/libs/macro/error.h b/libs/macro/error.h
index 1c281e6..a2254f9 100644
--- a/libs/macro/error.h
+++ b/libs/macro/error.h
@@ -73,6 +73,8 @@ typedef enum ERROR
 	EXPR_MISSING_BETWEEN,
 	EXPR_NO_LEFT_OPERAND,
 	EXPR_NO_RIGHT_OPERAND,
+	EXPR_DIVISION_BY_ZERO,
+	EXPR_SHIFT_COUNT,
 } error_t;
 
 /** Warning codes */
-- 
2.43.0


From 7587c551c64870bb1a3ae7dc04a2dda58e4e5785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:17 +0000
Subject: [PATCH 023/104] fix: report expressions that need more registers than
 MIPS has

---
 libs/compiler/errors.c  |  3 +++
 libs/compiler/errors.h  |  3 ++-
 libs/compiler/mipsgen.c | 14 ++++++++++++--
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/libs/compiler/errors.c b/libs/compiler/errors.c
index 7353dc8..0f07f73 100644
--- a/libs/compiler/errors.c
+++ b/libs/compiler/errors.c
@@ -448,6 +448,9 @@ static void get_error(const err_t num, char *const msg, va_list args)
 		case such_array_is_not_supported:
 			sprintf(msg, "такие массивы пока не поддерживаются в кодогенераторе");
 			break;
+		case not_enough_registers:
+			sprintf(msg, "слишком сложное выражение, не хватает регистров в кодогенераторе");
+			break;
 		case too_many_arguments:
 			sprintf(msg, "слишком много аргументов у функции, допустимое количество до 128");
 			break;
diff --git a/libs/compiler/errors.h b/libs/compiler/errors.h
index 5adec86..5c590f4 100644
--- a/libs/compiler/errors.h
+++ b/libs/compiler/errors.h
@@ -164,7 +164,8 @@ typedef enum ERROR
 	wrong_init_in_actparam,
 	array_borders_cannot_be_static_dynamic,
 	such_array_is_not_supported,
-	too_many_arguments
+	too_many_arguments,
+	not_enough_registers
 } err_t;
 
 /** Warnings codes */
diff --git a/libs/compiler/mipsgen.c b/libs/compiler/mipsgen.c
index 2ddb375..1af8e4f 100644
--- a/libs/compiler/mipsgen.c
+++ b/libs/compiler/mipsgen.c
@@ -430,7 +430,12 @@ static mips_register_t get_register(encoder *const enc)
 		i++;
 	}
 
-	assert(i != TEMP_REG_AMOUNT);
+	if (i == TEMP_REG_AMOUNT)
+	{
+		system_error(not_enough_registers);
+		enc->sx->rprt.errors++;
+		i--;
+	}
 
 	// Занимаем его
 	enc->registers[i] = true;
@@ -454,7 +459,12 @@ static mips_register_t get_float_register(encoder *const enc)
 		i += 2; /* т.к. операции с одинарной точностью */
 	}
 
-	assert(i != TEMP_FP_REG_AMOUNT + TEMP_REG_AMOUNT);
+	if (i >= TEMP_FP_REG_AMOUNT + TEMP_REG_AMOUNT)
+	{
+		system_error(not_enough_registers);
+		enc->sx->rprt.errors++;
+		i -= 2;
+	}
 
 	// Занимаем его
 	enc->registers[i] = true;
-- 
2.43.0


From aeb05aa153cf7638cf16c787df9bb1e5e066bcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:32 +0000
Subject: [PATCH 024/104] fix: initialise the whole state of the LLVM encoder

---
 libs/compiler/llvmgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index a0a3eaa..de02f10 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -3226,7 +3226,7 @@ int encode_to_llvm(const workspace *const ws, syntax *const sx)
 		return -1;
 	}
 
-	information info;
+	information info = { NULL };
 	info.sx = sx;
 	info.register_num = 1;
 	info.label_num = 1;
-- 
2.43.0


From ebbbe18219500ccce7a88465d2e2b982158e6304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:45 +0000
Subject: [PATCH 025/104] fix: keep the paths of included files inside their
 buffers

---
 libs/macro/linker.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/libs/macro/linker.c b/libs/macro/linker.c
index d8075d3..ab88879 100644
--- a/libs/macro/linker.c
+++ b/libs/macro/linker.c
@@ -28,8 +28,13 @@
 #endif
 
 
-static void linker_make_path(char *const buffer, const char *const name, const char *const path, const bool is_file)
+static bool linker_make_path(char *const buffer, const char *const name, const char *const path, const bool is_file)
 {
+	if (strlen(name) + (path != NULL ? strlen(path) + 1 : 0) >= MAX_ARG_SIZE)
+	{
+		return false;
+	}
+
 	size_t index = 0;
 
 	if (path != NULL)
@@ -55,14 +60,13 @@ static void linker_make_path(char *const buffer, const char *const name, const c
 		index += name[i] == '\n' || (name[i] == '\\' && name[i + 1] != '\\') ? 0 : 1;
 	}
 	buffer[index] = '\0';
+	return true;
 }
 
 static inline size_t linker_internal_path(linker *const lk, const char *const file)
 {
 	char path[MAX_ARG_SIZE];
-	linker_make_path(path, file, ws_get_file(lk->ws, lk->current), true);
-
-	if (access(path, F_OK) != -1)
+	if (linker_make_path(path, file, ws_get_file(lk->ws, lk->current), true) && access(path, F_OK) != -1)
 	{
 		const size_t size = ws_get_files_num(lk->ws);
 		const size_t index = ws_add_file(lk->ws, path);
@@ -81,9 +85,7 @@ static inline size_t linker_external_path(linker *const lk, const char *const fi
 	char path[MAX_ARG_SIZE];
 	for (size_t i = 0; i < ws_get_dirs_num(lk->ws); i++)
 	{
-		linker_make_path(path, file, ws_get_dir(lk->ws, i), false);
-
-		if (access(path, F_OK) != -1)
+		if (linker_make_path(path, file, ws_get_dir(lk->ws, i), false) && access(path, F_OK) != -1)
 		{
 			const size_t size = ws_get_files_num(lk->ws);
 			const size_t index = ws_add_file(lk->ws, path);
-- 
2.43.0


From 716d48d84398aa95592f45d594f157ff640ab0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:07 +0000
Subject: [PATCH 026/104] fix: print the line of a message up to its end only

---
 libs/utils/logger.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/libs/utils/logger.c b/libs/utils/logger.c
index e71b4f1..5fdbfda 100644
--- a/libs/utils/logger.c
+++ b/libs/utils/logger.c
@@ -101,12 +101,19 @@ static inline void print_msg(const uint8_t color, const char *const msg)
 		return;
 	}
 
-	while (msg[j] != '^')
+	i++;
+	j++;
+	fprintf(stderr, "\n");
+
+	while (msg[j] != '\0' && msg[j] != '^')
 	{
 #ifdef _WIN32
-		fprintf(stderr, "%c", msg[i++]);
+		if (msg[i] != '\n')
+		{
+			fprintf(stderr, "%c", msg[i++]);
+		}
 #else
-		for (size_t k = utf8_symbol_size(msg[i]); k > 0; k--)
+		for (size_t k = utf8_symbol_size(msg[i]); k > 0 && msg[i] != '\n'; k--)
 		{
 			fprintf(stderr, "%c", msg[i++]);
 		}
@@ -119,9 +126,12 @@ static inline void print_msg(const uint8_t color, const char *const msg)
 	while (msg[j] != '\0')
 	{
 #ifdef _WIN32
-		fprintf(stderr, "%c", msg[i++]);
+		if (msg[i] != '\n')
+		{
+			fprintf(stderr, "%c", msg[i++]);
+		}
 #else
-		for (size_t k = utf8_symbol_size(msg[i]); k > 0; k--)
+		for (size_t k = utf8_symbol_size(msg[i]); k > 0 && msg[i] != '\n'; k--)
 		{
 			fprintf(stderr, "%c", msg[i++]);
 		}
-- 
2.43.0


From 0e2c6940cc74e512583b5fd3017b703917e98163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:29 +0000
Subject: [PATCH 027/104] fix: stop reading macro arguments at the end of file

---
 libs/macro/parser.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 506e545..5139b2d 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -650,7 +650,7 @@ static inline size_t parse_brackets(parser *const prs, const size_t index, stora
 		size_t brackets = 0;
 
 		out_set_buffer(prs->io, MAX_VALUE_SIZE);
-		while (brackets != 0 || (character != ',' && character != ')' && character != (char32_t)EOF))
+		while (character != (char32_t)EOF && (brackets != 0 || (character != ',' && character != ')')))
 		{
 			uni_printf(prs->io, "%s", in_get_position(prs->io) != position ? " " : "");
 			uni_print_char(prs->io, uni_scan_char(prs->io));
@@ -663,11 +663,12 @@ static inline size_t parse_brackets(parser *const prs, const size_t index, stora
 			brackets += character != '(' ? character == ')' ? -1 : 0 : 1;
 			position = in_get_position(prs->io);
 			character = skip_lines(prs);
-			if (character == (char32_t)EOF)
-			{
-				parser_error(prs, &loc, ARGS_UNTERMINATED, storage_to_string(prs->stg, index));
-				arg = SIZE_MAX;
-			}
+		}
+
+		if (character == (char32_t)EOF)
+		{
+			parser_error(prs, &loc, ARGS_UNTERMINATED, storage_to_string(prs->stg, index));
+			arg = SIZE_MAX;
 		}
 
 		if (arg != SIZE_MAX)
-- 
2.43.0


From 2adf3338307126017c0f291cfa4b8d10f2ba9078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:32 +0000
Subject: [PATCH 028/104] fix: stop expanding a macro call once its depth limit
 is reported

---
 libs/macro/parser.c | 26 ++++++++++++++++++++++----
 libs/macro/parser.h |  1 +
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 5139b2d..6eccdda 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -791,6 +791,18 @@ static bool parse_replacement(parser *const prs, const size_t index)
 	return expected == actual;
 }
 
+/**
+ *	Leave macro call.
+ *	Allow further replacements after outer call, that reached depth limit.
+ *
+ *	@param	prs			Parser structure
+ */
+static inline void parser_leave_call(parser *const prs)
+{
+	prs->call--;
+	prs->is_depth_exceeded = prs->is_depth_exceeded && prs->call != 0;
+}
+
 /**
  *	Parse and replace identifier, if macro name recognized.
  *	Emit an error on @c MAX_CALL_DEPTH reached.
@@ -809,9 +821,14 @@ static inline void parse_identifier(parser *const prs)
 		return;
 	}
 
-	if (prs->call > MAX_CALL_DEPTH)
+	if (prs->call > MAX_CALL_DEPTH && !prs->is_depth_exceeded)
 	{
+		prs->is_depth_exceeded = true;
 		parser_error(prs, NULL, CALL_DEPTH);
+	}
+
+	if (prs->is_depth_exceeded)
+	{
 		uni_printf(prs->io, "%s", storage_last_read(prs->stg));
 		return;
 	}
@@ -846,7 +863,7 @@ static inline void parse_identifier(parser *const prs)
 	{
 		parse_replacement(prs, index);
 	}
-	prs->call--;
+	parser_leave_call(prs);
 }
 
 /**
@@ -1542,13 +1559,13 @@ static item_t parse_expression(parser *const prs)
 
 			if (!parse_replacement(prs, index))
 			{
-				prs->call--;
+				parser_leave_call(prs);
 				out_swap(prs->io, &out);
 				out_clear(&out);
 				break;
 			}
 
-			prs->call--;
+			parser_leave_call(prs);
 			out_swap(prs->io, &out);
 			buffer = out_extract_buffer(&out);
 			in_set_buffer(&out, buffer);
@@ -2400,6 +2417,7 @@ parser parser_create(linker *const lk, storage *const stg, universal_io *const o
 	prs.is_recovery_disabled = false;
 	prs.is_line_required = false;
 	prs.is_macro_processed = false;
+	prs.is_depth_exceeded = false;
 	prs.was_error = false;
 
 	return prs;
diff --git a/libs/macro/parser.h b/libs/macro/parser.h
index 7cc8d81..d13e347 100644
--- a/libs/macro/parser.h
+++ b/libs/macro/parser.h
@@ -43,6 +43,7 @@ typedef struct parser
 	bool is_recovery_disabled;		/**< Set, if error recovery & multiple output disabled */
 	bool is_line_required;			/**< Set, if position directive required */
 	bool is_macro_processed;		/**< Set, if macro block processed */
+	bool is_depth_exceeded;			/**< Set, if current outer call reached depth limit */
 	bool was_error;					/**< Set, if error message occurred */
 } parser;
 
-- 
2.43.0


From 665b84a64b2ffddc4470d3018ce7b9d8b4461b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:16 +0000
Subject: [PATCH 029/104] fix: do not take numbers inside type records for
 structures in LLVM code

---
 libs/compiler/llvmgen.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index de02f10..f0179dd 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -3060,9 +3060,17 @@ static void architecture(const workspace *const ws, syntax *const sx)
 
 static void structs_declaration(information *const info)
 {
-	const size_t types = vector_size(&info->sx->types);
-	for (size_t i = 0; i < types; i++)
+	// Записи таблицы типов связаны в список от последней к первой, вперёд по таблице идти нельзя:
+	// любое значение внутри записи может совпасть с кодом типа
+	vector types = vector_create(vector_size(&info->sx->types));
+	for (size_t i = info->sx->start_type; i != 0; i = (size_t)vector_get(&info->sx->types, i))
 	{
+		vector_add(&types, (item_t)i + 1);
+	}
+
+	for (size_t k = vector_size(&types); k > 0; k--)
+	{
+		const size_t i = (size_t)vector_get(&types, k - 1);
 		if (type_is_structure(info->sx, (item_t)i))
 		{
 			uni_printf(info->sx->io, "%%struct_opt.%zu = type { ", i);
@@ -3088,6 +3096,7 @@ static void structs_declaration(information *const info)
 			uni_printf(info->sx->io, " }\n");
 		}
 	}
+	vector_clear(&types);
 	uni_printf(info->sx->io, " \n");
 }
 
-- 
2.43.0


From 9466c79d8efe108a05c23db323b625ec42ce7b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:45 +0000
Subject: [PATCH 030/104] fix: keep paths given to the workspace inside their
 buffers

---
 libs/utils/workspace.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/libs/utils/workspace.c b/libs/utils/workspace.c
index 452f63d..a76f3f9 100644
--- a/libs/utils/workspace.c
+++ b/libs/utils/workspace.c
@@ -91,7 +91,12 @@ static void ws_unix_path(const char *const path, char *const buffer)
 		i++;
 	}
 
-	buffer[buffer[j - 1] == '/' ? j - 1 : j] = '\0';
+	if (j == 0 && i != 0)
+	{
+		buffer[j++] = '.';
+	}
+
+	buffer[j > 1 && buffer[j - 1] == '/' ? j - 1 : j] = '\0';
 }
 
 static size_t ws_exists(const char *const element, const strings *const vec)
@@ -127,6 +132,12 @@ static inline size_t ws_add_path(workspace *const ws, strings *const vec, const
 	}
 
 	char buffer[MAX_ARG_SIZE];
+	if (strlen(path) >= MAX_ARG_SIZE)
+	{
+		ws->was_error = true;
+		return SIZE_MAX;
+	}
+
 	ws_unix_path(path, buffer);
 	if (access(buffer, F_OK) == -1)
 	{
@@ -267,6 +278,12 @@ int ws_set_output(workspace *const ws, const char *const path)
 		return -1;
 	}
 
+	if (strlen(path) >= MAX_ARG_SIZE)
+	{
+		ws->was_error = true;
+		return -1;
+	}
+
 	strcpy(ws->output, path);
 	return 0;
 }
-- 
2.43.0


From dba5f584218c805728ffaa3a203cde0c404d03e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:59 +0000
Subject: [PATCH 031/104] fix: accept macro names of any length on the command
 line

---
 libs/macro/macro.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/libs/macro/macro.c b/libs/macro/macro.c
index e081b5d..058268c 100644
--- a/libs/macro/macro.c
+++ b/libs/macro/macro.c
@@ -15,6 +15,8 @@
  */
 
 #include "macro.h"
+#include <stdlib.h>
+#include <string.h>
 #include "linker.h"
 #include "parser.h"
 #include "storage.h"
@@ -78,27 +80,32 @@ static inline int ws_parse(const workspace *const ws, storage *const stg)
 
 		if (flag[0] == '-' && flag[1] == 'D')
 		{
-			char32_t name[MAX_ARG_SIZE];
+			char32_t *const name = malloc((strlen(flag) + 1) * sizeof(char32_t));
+			if (name == NULL)
+			{
+				return -1;
+			}
 
 			const size_t index = ws_parse_name(&flag[2], name);
 			if (index == SIZE_MAX)
 			{
+				free(name);
 				return -1;
 			}
 
+			size_t added = storage_add_by_utf8(stg, name);
 			if (flag[2 + index] != '\0')
 			{
-				if (storage_set_by_index(stg, storage_add_by_utf8(stg, name), &flag[2 + index]) == SIZE_MAX)
-				{
-					macro_system_error(NULL, MACRO_NAME_EXISTS, name);
-					return -1;
-				}
+				added = storage_set_by_index(stg, added, &flag[2 + index]);
 			}
-			else if (storage_add_by_utf8(stg, name) == SIZE_MAX)
+
+			if (added == SIZE_MAX)
 			{
 				macro_system_error(NULL, MACRO_NAME_EXISTS, name);
+				free(name);
 				return -1;
 			}
+			free(name);
 		}
 	}
 
-- 
2.43.0


From e1f706b568dd31eef33164bc2fb36e0a74278ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:31 +0000
Subject: [PATCH 032/104] fix: leave no part of the code when the encoder fails

---
 libs/compiler/compiler.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/compiler/compiler.c b/libs/compiler/compiler.c
index 5c88ed7..aa32f0a 100644
--- a/libs/compiler/compiler.c
+++ b/libs/compiler/compiler.c
@@ -126,6 +126,12 @@ static status_t compile_from_ws(workspace *const ws, const encoder enc)
 
 	out_set_file(&io, ws_get_output(ws));
 	const status_t sts = compile_from_io(ws, &io, enc);
+	if (sts == sts_codegen_error)
+	{
+		// Не оставляем в выходном файле часть кода
+		out_set_file(&io, ws_get_output(ws));
+		io_erase(&io);
+	}
 
 #ifndef GENERATE_MACRO
 	free(preprocessing);
-- 
2.43.0


From e6201dc3f339b43b211f8051324b18621b7ba804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:30 +0000
Subject: [PATCH 033/104] fix: give messages the arguments they print

---
 libs/compiler/builder.c | 2 +-
 libs/compiler/errors.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 7a9969e..605c323 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -317,7 +317,7 @@ static node build_printf_expression(builder *const bldr, node *const callee, nod
 
 	if (argc >= MAX_PRINTF_ARGS)
 	{
-		semantic_error(bldr, r_loc, too_many_printf_args);
+		semantic_error(bldr, r_loc, too_many_printf_args, (size_t)MAX_PRINTF_ARGS);
 		return node_broken();
 	}
 
diff --git a/libs/compiler/errors.c b/libs/compiler/errors.c
index 0f07f73..00443c2 100644
--- a/libs/compiler/errors.c
+++ b/libs/compiler/errors.c
@@ -432,7 +432,7 @@ static void get_error(const err_t num, char *const msg, va_list args)
 
 		// Tree testing errors
 		case node_unexpected:
-			sprintf(msg, "недопустимый узел верхнего уровня %i", va_arg(args, int));
+			sprintf(msg, "недопустимый узел верхнего уровня");
 			break;
 
 		// Codegen errors
-- 
2.43.0


From 25851506e80106cd94abafe461edfe2c2ad549e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:32 +0000
Subject: [PATCH 034/104] fix: write type spellings of any length to the tree
 listing

---
 libs/compiler/writer.c | 58 ++++++++++++++++++++----------------------
 libs/compiler/writer.h |  4 +--
 2 files changed, 30 insertions(+), 32 deletions(-)

diff --git a/libs/compiler/writer.c b/libs/compiler/writer.c
index d15e137..225e547 100644
--- a/libs/compiler/writer.c
+++ b/libs/compiler/writer.c
@@ -94,9 +94,7 @@ static inline void write_location(writer *const wrt, const location loc)
  */
 static void write_type(writer *const wrt, const item_t type)
 {
-	char spelling[MAX_STRING_LENGTH];
-	write_type_spelling(wrt->sx, type, spelling);
-	write(wrt, spelling);
+	write_type_spelling(wrt->sx, type, wrt->io);
 }
 
 /**
@@ -2086,63 +2084,63 @@ void write_tree(const char *const path, syntax *const sx)
 }
 
 
-int write_type_spelling(const syntax *const sx, const item_t type, char *const buffer)
+int write_type_spelling(const syntax *const sx, const item_t type, universal_io *const io)
 {
 	const type_t type_class = type_get_class(sx, type);
 	switch (type_class)
 	{
 		case TYPE_VARARG:
-			return sprintf(buffer, "...");
+			return uni_printf(io, "...");
 
 		case TYPE_NULL_POINTER:
-			return sprintf(buffer, "nullptr");
+			return uni_printf(io, "nullptr");
 
 		case TYPE_FILE:
-			return sprintf(buffer, "FILE");
+			return uni_printf(io, "FILE");
 
 		case TYPE_VOID:
-			return sprintf(buffer, "void");
+			return uni_printf(io, "void");
 
 		case TYPE_BOOLEAN:
-			return sprintf(buffer, "bool");
+			return uni_printf(io, "bool");
 
 		case TYPE_FLOATING:
-			return sprintf(buffer, "double");
+			return uni_printf(io, "double");
 
 		case TYPE_CHARACTER:
-			return sprintf(buffer, "char");
+			return uni_printf(io, "char");
 
 		case TYPE_INTEGER:
-			return sprintf(buffer, "int");
+			return uni_printf(io, "int");
 
 		case TYPE_UNDEFINED:
-			return sprintf(buffer, "undefined type");
+			return uni_printf(io, "undefined type");
 
 		case TYPE_FUNCTION:
 		{
-			int index = write_type_spelling(sx, type_function_get_return_type(sx, type), buffer);
-			index += sprintf(&buffer[index], " (");
+			int index = write_type_spelling(sx, type_function_get_return_type(sx, type), io);
+			index += uni_printf(io, " (");
 
 			const size_t parameter_amount = type_function_get_parameter_amount(sx, type);
 			for (size_t i = 0; i < parameter_amount; i++)
 			{
 				const item_t parameter_type = type_function_get_parameter_type(sx, type, i);
 
-				index += write_type_spelling(sx, parameter_type, &buffer[index]);
+				index += write_type_spelling(sx, parameter_type, io);
 				if (i != parameter_amount - 1)
 				{
-					index += sprintf(&buffer[index], ", ");
+					index += uni_printf(io, ", ");
 				}
 			}
 
-			index += sprintf(&buffer[index], ")");
+			index += uni_printf(io, ")");
 			return index;
 		}
 
 		case TYPE_MSG_INFO:
 		case TYPE_STRUCTURE:
 		{
-			int index = sprintf(buffer, "struct { ");
+			int index = uni_printf(io, "struct { ");
 
 			const size_t member_amount = type_structure_get_member_amount(sx, type);
 			for (size_t i = 0; i < member_amount; i++)
@@ -2150,27 +2148,27 @@ int write_type_spelling(const syntax *const sx, const item_t type, char *const b
 				const item_t member_type = type_structure_get_member_type(sx, type, i);
 				const size_t member_repr = type_structure_get_member_name(sx, type, i);
 
-				index += write_type_spelling(sx, member_type, &buffer[index]);
-				index += sprintf(&buffer[index], " %s; ", repr_get_name(sx, member_repr));
+				index += write_type_spelling(sx, member_type, io);
+				index += uni_printf(io, " %s; ", repr_get_name(sx, member_repr));
 			}
 
-			index += sprintf(&buffer[index], "}");
+			index += uni_printf(io, "}");
 			return index;
 		}
 
 		case TYPE_ARRAY:
 		{
 			const item_t element_type = type_array_get_element_type(sx, type);
-			int index = write_type_spelling(sx, element_type, buffer);
-			index += sprintf(&buffer[index], "[]");
+			int index = write_type_spelling(sx, element_type, io);
+			index += uni_printf(io, "[]");
 			return index;
 		}
 
 		case TYPE_POINTER:
 		{
 			const item_t element_type = type_pointer_get_element_type(sx, type);
-			int index = write_type_spelling(sx, element_type, buffer);
-			index += sprintf(&buffer[index], "*");
+			int index = write_type_spelling(sx, element_type, io);
+			index += uni_printf(io, "*");
 			return index;
 		}
 
@@ -2179,14 +2177,14 @@ int write_type_spelling(const syntax *const sx, const item_t type, char *const b
 			const item_t element_type = type_const_get_unqualified_type(sx, type);
 			if (type_is_pointer(sx, element_type))
 			{
-				int index = write_type_spelling(sx, element_type, buffer);
-				index += sprintf(&buffer[index], " const");
+				int index = write_type_spelling(sx, element_type, io);
+				index += uni_printf(io, " const");
 				return index;
 			}
 			else
 			{
-				int index = sprintf(buffer, "const ");
-				index += write_type_spelling(sx, element_type, &buffer[index]);
+				int index = uni_printf(io, "const ");
+				index += write_type_spelling(sx, element_type, io);
 				return index; 
 			}
 		}
diff --git a/libs/compiler/writer.h b/libs/compiler/writer.h
index 3fa53db..e323aee 100644
--- a/libs/compiler/writer.h
+++ b/libs/compiler/writer.h
@@ -36,11 +36,11 @@ void write_tree(const char *const path, syntax *const sx);
  *
  *	@param	sx				Syntax structure
  *	@param	type			Type
- *	@param	buffer			Buffer
+ *	@param	io				Universal io structure
  *
  *	@return	Return printf-like value
  */
-int write_type_spelling(const syntax *const sx, const item_t type, char *const buffer);
+int write_type_spelling(const syntax *const sx, const item_t type, universal_io *const io);
 
 /**
  *	Write virtual machine codes
-- 
2.43.0


From 3649957462a6b7b2237051b0a9cf1a9e33997d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:42 +0000
Subject: [PATCH 035/104] fix: name the directive of a missing expression
 inside a macro definition

---
 libs/macro/parser.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 6eccdda..c4ce146 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -1482,12 +1482,10 @@ static inline bool parse_token(parser *const prs, computer *const comp, const si
 static item_t parse_expression(parser *const prs)
 {
 	location loc = parse_location(prs);
+	// Если ничего не прочитано, разбирается вычисление внутри макроопределения
 	char directive[MAX_KEYWORD_SIZE];
 	const char *last_read = storage_last_read(prs->stg);
-	if (last_read)
-	{
-		sprintf(directive, "%s", last_read);
-	}
+	snprintf(directive, MAX_KEYWORD_SIZE, "%s", last_read != NULL ? last_read : "#eval");
 
 	char32_t character = skip_until(prs, false);
 	if (character == '\n' || character == (char32_t)EOF)
-- 
2.43.0


From 420ca973d9f1104f0b89192081836ab906c15f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:31 +0000
Subject: [PATCH 036/104] fix: count errors of LLVM generator so that the
 compilation fails

---
 libs/compiler/llvmgen.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index f0179dd..db046c5 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -508,6 +508,7 @@ static void to_code_alloc_array_static(information *const info, const size_t ind
 	if (dim == 0 || dim > MAX_DIMENSIONS)
 	{
 		system_error(such_array_is_not_supported);
+		info->sx->rprt.errors++;
 		return;
 	}
 
@@ -533,6 +534,7 @@ static void to_code_alloc_array_dynamic(information *const info, const size_t in
 	if (dim == 0 || dim > MAX_DIMENSIONS)
 	{
 		system_error(such_array_is_not_supported);
+		info->sx->rprt.errors++;
 		return;
 	}
 
@@ -1002,6 +1004,7 @@ static void emit_call_expression(information *const info, const node *const nd)
 	if (args > MAX_FUNCTION_ARGS)
 	{
 		system_error(too_many_arguments);
+		info->sx->rprt.errors++;
 		return;
 	}
 
@@ -2371,6 +2374,7 @@ static void emit_variable_declaration(information *const info, const node *const
 					if (!hash_get_by_index(&info->arrays, index, IS_STATIC))
 					{
 						system_error(array_borders_cannot_be_static_dynamic);
+						info->sx->rprt.errors++;
 					}
 
 					hash_set_by_index(&info->arrays, index, j, info->answer_const);
@@ -2380,6 +2384,7 @@ static void emit_variable_declaration(information *const info, const node *const
 					if (hash_get_by_index(&info->arrays, index, IS_STATIC) && j > 1)
 					{
 						system_error(array_borders_cannot_be_static_dynamic);
+						info->sx->rprt.errors++;
 					}
 
 					hash_set_by_index(&info->arrays, index, j, info->answer_reg);
-- 
2.43.0


From 219672493d4a9a4f4f71ee97c92a35e8356b6c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:06 +0000
Subject: [PATCH 037/104] fix: find the end of comments like /****/ and /*/*/

---
 libs/compiler/lexer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index 0bd648a..c376dbb 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -101,7 +101,8 @@ static inline void skip_line_comment(lexer *const lxr)
  */
 static inline void skip_block_comment(lexer *const lxr)
 {
-	while (lxr->character != '*' || scan(lxr) != '/')
+	bool was_star = false;
+	while (scan(lxr) != '/' || !was_star)
 	{
 		if (lxr->character == (char32_t)EOF)
 		{
@@ -109,7 +110,7 @@ static inline void skip_block_comment(lexer *const lxr)
 			return;
 		}
 
-		scan(lxr);
+		was_star = lxr->character == '*';
 	}
 
 	scan(lxr);
-- 
2.43.0


From a86fe69a906d9ebef9a1d2787f1f97a20e4f2a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:42 +0000
Subject: [PATCH 038/104] fix: keep non-ASCII function names distinct in LLVM
 code

---
 libs/compiler/llvmgen.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index db046c5..abb57e6 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -25,7 +25,6 @@
 #define MAX_FUNCTION_ARGS 128
 #define MAX_PRINTF_ARGS 128
 #define MAX_CASES 4096
-#define MAX_NAME 4096
 
 
 static const size_t HASH_TABLE_SIZE = 1024;
@@ -138,9 +137,17 @@ static void func_name_to_io(information *const info, const size_t func_ref)
 		return;
 	}
 
-	char modified_name[MAX_NAME];
-	utf8_transliteration(name, modified_name);
-	uni_printf(info->sx->io, "%s", modified_name);
+	// Transliterated names could be equal or empty, so use quoted ones
+	for (size_t i = 0; name[i] != '\0'; i++)
+	{
+		if ((unsigned char)name[i] > 0x7F)
+		{
+			uni_printf(info->sx->io, "\"%s\"", name);
+			return;
+		}
+	}
+
+	uni_printf(info->sx->io, "%s", name);
 }
 
 static void type_to_io(information *const info, const item_t type)
-- 
2.43.0


From 1437b88e519f8739ace7a02a74d877ad41512440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:15 +0000
Subject: [PATCH 039/104] fix: count symbols of a line with invalid UTF-8
 without underflow

---
 libs/utils/locator.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libs/utils/locator.c b/libs/utils/locator.c
index 516178f..916c6aa 100644
--- a/libs/utils/locator.c
+++ b/libs/utils/locator.c
@@ -41,7 +41,8 @@ static void line_to_begin(universal_io *const io, size_t *const symbol, size_t *
 	*symbol = FIRST_SYMBOL;
 	*filler = FIRST_SYMBOL;
 
-	size_t position = in_get_position(io);
+	const size_t end = in_get_position(io);
+	size_t position = end;
 	if (position == 0)
 	{
 		return;
@@ -53,7 +54,6 @@ static void line_to_begin(universal_io *const io, size_t *const symbol, size_t *
 
 	while (ch != '\n')
 	{
-		*symbol += 2 - utf8_symbol_size(ch);
 		*filler = ch == ' ' || ch == '\t' ? (*filler) + 1 : FIRST_SYMBOL;
 
 		if (position == 0)
@@ -65,6 +65,15 @@ static void line_to_begin(universal_io *const io, size_t *const symbol, size_t *
 		in_set_position(io, --position);
 		uni_scanf(io, "%c", &ch);
 	}
+
+	// Symbols are counted as they will be read: the text may contain invalid sequences
+	const size_t begin = in_get_position(io);
+	while (in_get_position(io) < end && uni_scan_char(io) != (char32_t)EOF)
+	{
+		(*symbol)++;
+	}
+
+	in_set_position(io, begin);
 }
 
 static inline void line_to_end(universal_io *const io)
-- 
2.43.0


From 31a67c1392a3282e3d62fc89e7c2608e2709cdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:19 +0000
Subject: [PATCH 040/104] fix: check empty array bounds for every target

---
 libs/compiler/builder.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 605c323..0975675 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -1239,6 +1239,11 @@ node build_declarator(builder *const bldr, const item_t type, const size_t name
 		}
 		if (expression_get_class(&bound) == EXPR_EMPTY_BOUND)
 		{
+			if (i + 1 != bounds_amount)
+			{
+				semantic_error(bldr, node_get_location(&bound), empty_init);
+			}
+
 			has_empty_bounds = true;
 		}
 	}
-- 
2.43.0


From c73bb91ed8a017da5418049e485b89aedf648680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:04 +0000
Subject: [PATCH 041/104] fix: give the message about initialisers of arguments
 its own text

---
 libs/compiler/errors.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/compiler/errors.c b/libs/compiler/errors.c
index 00443c2..206355f 100644
--- a/libs/compiler/errors.c
+++ b/libs/compiler/errors.c
@@ -442,6 +442,7 @@ static void get_error(const err_t num, char *const msg, va_list args)
 
 		case wrong_init_in_actparam:
 			sprintf(msg, "в инициализаторе-фактическом параметре функции могут быть только константы");
+			break;
 		case array_borders_cannot_be_static_dynamic:
 			sprintf(msg, "массив не может иметь статические и динамические границы");
 			break;
-- 
2.43.0


From 486a73ba52e477a4fa2db33931ce99ac649b42a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:48 +0000
Subject: [PATCH 042/104] fix: check initialisers of arguments for every target

---
 libs/compiler/builder.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 0975675..eb21935 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -693,6 +693,19 @@ node build_call_expression(builder *const bldr, node *const callee
 			return node_broken();
 		}
 
+		const size_t inits = expression_get_class(&argument) == EXPR_INITIALIZER
+			? expression_initializer_get_size(&argument)
+			: 0;
+		for (size_t j = 0; j < inits; j++)
+		{
+			const node subexpr = expression_initializer_get_subexpr(&argument, j);
+			if (expression_get_class(&subexpr) != EXPR_LITERAL)
+			{
+				semantic_error(bldr, node_get_location(&subexpr), wrong_init_in_actparam);
+				return node_broken();
+			}
+		}
+
 		node_vector_set(args, i, &argument);
 	}
 
-- 
2.43.0


From c8ecd0d336a3c1de7c22c62da25582d8a3ca0113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:10 +0000
Subject: [PATCH 043/104] fix: encode every character in as many UTF-8 octets
 as it needs

---
 libs/utils/utf8.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/libs/utils/utf8.c b/libs/utils/utf8.c
index b425738..d0e38b1 100644
--- a/libs/utils/utf8.c
+++ b/libs/utils/utf8.c
@@ -987,13 +987,8 @@ size_t utf8_to_string(char *const buffer, const char32_t symbol)
 		return 1;
 	}
 
-	char32_t mask = 0x00FC0000;
-	size_t octets = 4;
-	while ((symbol & mask) == 0 && octets > 1)
-	{
-		mask >>= 6;
-		octets--;
-	}
+	const size_t octets = utf8_size(symbol);
+	char32_t mask = 0x0000003F << (6 * (octets - 1));
 
 	for (size_t i = 0; i < octets; i++)
 	{
-- 
2.43.0


From c0404669738e47795a0cf3b16a730e1b8240fdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:25 +0000
Subject: [PATCH 044/104] fix: report an index near SIZE_MAX instead of
 accessing memory before the table

---
 libs/utils/hash.h   | 8 ++++----
 libs/utils/tree.c   | 8 ++++----
 libs/utils/vector.c | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/libs/utils/hash.h b/libs/utils/hash.h
index 625ddbf..b0659ed 100644
--- a/libs/utils/hash.h
+++ b/libs/utils/hash.h
@@ -198,7 +198,7 @@ inline item_t hash_get_by_index(const hash *const hs, const size_t index, const
  */
 inline double hash_get_double_by_index(const hash *const hs, const size_t index, const size_t num)
 {
-	return num + DOUBLE_SIZE <= hash_get_amount_by_index(hs, index) ? vector_get_double(hs, index + 3 + num) : DBL_MAX;
+	return num < hash_get_amount_by_index(hs, index) && hash_get_amount_by_index(hs, index) - num >= DOUBLE_SIZE ? vector_get_double(hs, index + 3 + num) : DBL_MAX;
 }
 
 /**
@@ -212,7 +212,7 @@ inline double hash_get_double_by_index(const hash *const hs, const size_t index,
  */
 inline int64_t hash_get_int64_by_index(const hash *const hs, const size_t index, const size_t num)
 {
-	return num + INT64_SIZE <= hash_get_amount_by_index(hs, index) ? vector_get_int64(hs, index + 3 + num) : LLONG_MAX;
+	return num < hash_get_amount_by_index(hs, index) && hash_get_amount_by_index(hs, index) - num >= INT64_SIZE ? vector_get_int64(hs, index + 3 + num) : LLONG_MAX;
 }
 
 
@@ -243,7 +243,7 @@ inline int hash_set_by_index(hash *const hs, const size_t index, const size_t nu
  */
 inline size_t hash_set_double_by_index(hash *const hs, const size_t index, const size_t num, const double value)
 {
-	return num + DOUBLE_SIZE <= hash_get_amount_by_index(hs, index) ? vector_set_double(hs, index + 3 + num, value) : SIZE_MAX;
+	return num < hash_get_amount_by_index(hs, index) && hash_get_amount_by_index(hs, index) - num >= DOUBLE_SIZE ? vector_set_double(hs, index + 3 + num, value) : SIZE_MAX;
 }
 
 /**
@@ -258,7 +258,7 @@ inline size_t hash_set_double_by_index(hash *const hs, const size_t index, const
  */
 inline size_t hash_set_int64_by_index(hash *const hs, const size_t index, const size_t num, const int64_t value)
 {
-	return num + INT64_SIZE <= hash_get_amount_by_index(hs, index) ? vector_set_int64(hs, index + 3 + num, value) : SIZE_MAX;
+	return num < hash_get_amount_by_index(hs, index) && hash_get_amount_by_index(hs, index) - num >= INT64_SIZE ? vector_set_int64(hs, index + 3 + num, value) : SIZE_MAX;
 }
 
 
diff --git a/libs/utils/tree.c b/libs/utils/tree.c
index ec61993..4568298 100644
--- a/libs/utils/tree.c
+++ b/libs/utils/tree.c
@@ -180,12 +180,12 @@ item_t node_get_arg(const node *const nd, const size_t index)
 
 double node_get_arg_double(const node *const nd, const size_t index)
 {
-	return index + DOUBLE_SIZE <= node_get_argc(nd) ? vector_get_double(nd->tree, ref_get_argc(nd) + 1 + index) : DBL_MAX;
+	return index < node_get_argc(nd) && node_get_argc(nd) - index >= DOUBLE_SIZE ? vector_get_double(nd->tree, ref_get_argc(nd) + 1 + index) : DBL_MAX;
 }
 
 int64_t node_get_arg_int64(const node *const nd, const size_t index)
 {
-	return index + INT64_SIZE <= node_get_argc(nd) ? vector_get_int64(nd->tree, ref_get_argc(nd) + 1 + index) : LLONG_MAX;
+	return index < node_get_argc(nd) && node_get_argc(nd) - index >= INT64_SIZE ? vector_get_int64(nd->tree, ref_get_argc(nd) + 1 + index) : LLONG_MAX;
 }
 
 size_t node_get_amount(const node *const nd)
@@ -340,7 +340,7 @@ int node_set_arg(const node *const nd, const size_t index, const item_t arg)
 
 size_t node_set_arg_double(const node *const nd, const size_t index, const double arg)
 {
-	if (index + DOUBLE_SIZE > node_get_argc(nd))
+	if (index >= node_get_argc(nd) || node_get_argc(nd) - index < DOUBLE_SIZE)
 	{
 		return SIZE_MAX;
 	}
@@ -350,7 +350,7 @@ size_t node_set_arg_double(const node *const nd, const size_t index, const doubl
 
 size_t node_set_arg_int64(const node *const nd, const size_t index, const int64_t arg)
 {
-	if (index + INT64_SIZE > node_get_argc(nd))
+	if (index >= node_get_argc(nd) || node_get_argc(nd) - index < INT64_SIZE)
 	{
 		return SIZE_MAX;
 	}
diff --git a/libs/utils/vector.c b/libs/utils/vector.c
index 2633b7f..ed6d97d 100644
--- a/libs/utils/vector.c
+++ b/libs/utils/vector.c
@@ -112,7 +112,7 @@ int vector_set(vector *const vec, const size_t index, const item_t value)
 
 size_t vector_set_double(vector *const vec, const size_t index, const double value)
 {
-	if (!vector_is_correct(vec) || index + DOUBLE_SIZE > vec->size)
+	if (!vector_is_correct(vec) || index >= vec->size || vec->size - index < DOUBLE_SIZE)
 	{
 		return SIZE_MAX;
 	}
@@ -122,7 +122,7 @@ size_t vector_set_double(vector *const vec, const size_t index, const double val
 
 size_t vector_set_int64(vector *const vec, const size_t index, const int64_t value)
 {
-	if (!vector_is_correct(vec) || index + INT64_SIZE > vec->size)
+	if (!vector_is_correct(vec) || index >= vec->size || vec->size - index < INT64_SIZE)
 	{
 		return SIZE_MAX;
 	}
@@ -143,7 +143,7 @@ item_t vector_get(const vector *const vec, const size_t index)
 
 double vector_get_double(const vector *const vec, const size_t index)
 {
-	if (!vector_is_correct(vec) || index + DOUBLE_SIZE > vec->size)
+	if (!vector_is_correct(vec) || index >= vec->size || vec->size - index < DOUBLE_SIZE)
 	{
 		return DBL_MAX;
 	}
@@ -153,7 +153,7 @@ double vector_get_double(const vector *const vec, const size_t index)
 
 int64_t vector_get_int64(const vector *const vec, const size_t index)
 {
-	if (!vector_is_correct(vec) || index + INT64_SIZE > vec->size)
+	if (!vector_is_correct(vec) || index >= vec->size || vec->size - index < INT64_SIZE)
 	{
 		return LLONG_MAX;
 	}
-- 
2.43.0


From 42b598f23eeba9304572b22d1c2154515a823fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:04 +0000
Subject: [PATCH 045/104] fix: hash_set_double and hash_set_int64 report a
 value number out of range

---
 libs/utils/hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/utils/hash.c b/libs/utils/hash.c
index 769a008..3f33b6f 100644
--- a/libs/utils/hash.c
+++ b/libs/utils/hash.c
@@ -168,13 +168,13 @@ size_t hash_set(hash *const hs, const item_t key, const size_t num, const item_t
 size_t hash_set_double(hash *const hs, const item_t key, const size_t num, const double value)
 {
 	const size_t index = hash_get_index(hs, key);
-	return hash_set_double_by_index(hs, hash_get_index(hs, key), num, value) != DBL_MAX ? index : SIZE_MAX;
+	return hash_set_double_by_index(hs, hash_get_index(hs, key), num, value) != SIZE_MAX ? index : SIZE_MAX;
 }
 
 size_t hash_set_int64(hash *const hs, const item_t key, const size_t num, const int64_t value)
 {
 	const size_t index = hash_get_index(hs, key);
-	return hash_set_int64_by_index(hs, hash_get_index(hs, key), num, value) != LLONG_MAX ? index : SIZE_MAX;
+	return hash_set_int64_by_index(hs, hash_get_index(hs, key), num, value) != SIZE_MAX ? index : SIZE_MAX;
 }
 
 
-- 
2.43.0


From 86fbc9963b19dbfeb92b7a5f75b067c7a4470f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:18 +0000
Subject: [PATCH 046/104] fix: a root without children has no next node

---
 libs/utils/tree.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/utils/tree.c b/libs/utils/tree.c
index 4568298..3129564 100644
--- a/libs/utils/tree.c
+++ b/libs/utils/tree.c
@@ -205,6 +205,11 @@ node node_get_next(const node *const nd)
 
 	if (node_get_amount(nd) == 0)
 	{
+		if (nd->index == 0)
+		{
+			return node_broken();
+		}
+
 		item_t index = vector_get(nd->tree, ref_get_next(nd));
 		while (is_negative(index))
 		{
-- 
2.43.0


From 212a57dda9ef0946d84e3c21345197b5ee171572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:32 +0000
Subject: [PATCH 047/104] fix: adding an empty vector to strings is a failure
 like any other empty string

---
 libs/utils/strings.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/utils/strings.c b/libs/utils/strings.c
index 111d0cd..1580772 100644
--- a/libs/utils/strings.c
+++ b/libs/utils/strings.c
@@ -138,7 +138,8 @@ size_t strings_add_by_utf8(strings *const vec, const char32_t *const str)
 
 size_t strings_add_by_vector(strings *const vec, const vector *const str)
 {
-	if (!strings_is_correct(vec) || !vector_is_correct(str) || vector_get(str, 0) == '\0' || strings_add_index(vec))
+	if (!strings_is_correct(vec) || !vector_is_correct(str) || vector_size(str) == 0 || vector_get(str, 0) == '\0'
+		|| strings_add_index(vec))
 	{
 		return SIZE_MAX;
 	}
-- 
2.43.0


From 8d31a8874f02bddc80b412b293e1357ba1c06064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:46 +0000
Subject: [PATCH 048/104] fix: restore a double whose bits equal LLONG_MAX as
 it was stored

---
 libs/utils/item.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/utils/item.c b/libs/utils/item.c
index 7357055..3f73246 100644
--- a/libs/utils/item.c
+++ b/libs/utils/item.c
@@ -247,12 +247,12 @@ double item_restore_double(const item_t *const stg)
 
 double item_restore_double_for_target(const item_status status, const item_t *const stg)
 {
-	const int64_t temp = item_restore_int64_for_target(status, stg);
-	if (temp == LLONG_MAX)
+	if (stg == NULL || item_get_size(status) == 0)
 	{
 		return DBL_MAX;
 	}
 
+	const int64_t temp = item_restore_int64_for_target(status, stg);
 	double value;
 	memcpy(&value, &temp, sizeof(double));
 	return value;
-- 
2.43.0


From 52a819ed3367321a28e912f2cc8539629b995bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:15 +0000
Subject: [PATCH 049/104] fix: a floating literal has the representable value
 nearest to its spelling

---
 libs/compiler/lexer.c | 72 +++++++++++++++++++++++++++++--------------
 1 file changed, 49 insertions(+), 23 deletions(-)

diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index c376dbb..c755879 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -15,11 +15,16 @@
  */
 
 #include "lexer.h"
-#include <math.h>
+#include <inttypes.h>
+#include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 #include "uniscanner.h"
 
 
+#define MAX_DIGITS 800		// Столько значащих цифр определяют ближайшее представимое значение
+
+
 /**
  *	Emit an error from lexer
  *
@@ -142,6 +147,37 @@ static token lex_identifier_or_keyword(lexer *const lxr)
 	return token_keyword((location){ loc_begin, loc_end }, (token_t)ref);
 }
 
+/**
+ *	Append decimal digit to significant digits of literal
+ *
+ *	@param	digits		Significant digits
+ *	@param	amount		Amount of significant digits
+ *	@param	digit		Next digit
+ *
+ *	@return	Exponent increment, which is not zero for omitted digits
+ */
+static inline int64_t add_digit(char *const digits, size_t *const amount, const uint8_t digit)
+{
+	if (*amount == 0 && digit == 0)
+	{
+		return 0;
+	}
+
+	if (*amount < MAX_DIGITS)
+	{
+		digits[(*amount)++] = (char)('0' + digit);
+		return 0;
+	}
+
+	// Достаточно знать, что среди остальных цифр были ненулевые
+	if (digit != 0 && digits[MAX_DIGITS - 1] == '0')
+	{
+		digits[MAX_DIGITS - 1] = '1';
+	}
+
+	return 1;
+}
+
 /**
  *	Lex numeric literal
  *
@@ -198,6 +234,8 @@ static token lex_numeric_literal(lexer *const lxr)
 	double float_value = 0.0;
 	bool is_in_range = true;
 	bool is_integer = true;
+	char digits[MAX_DIGITS + 32];	// Значащие десятичные цифры, а затем порядок
+	size_t amount = 0;
 	int64_t exponent = 0;	// Порядок, на который нужно умножить прочитанные цифры
 
 	while (utf8_is_hexa_digit(lxr->character))
@@ -240,28 +278,23 @@ static token lex_numeric_literal(lexer *const lxr)
 			float_value = float_value * base + digit;
 		}
 
+		if (base == 10)
+		{
+			exponent += add_digit(digits, &amount, digit);
+		}
+
 		scan(lxr);
 	}
 
 	// Дробная часть разрешена только для чисел без спецификаторов
 	if (lxr->character == '.' && !was_modifier)
 	{
-		if (is_integer)
-		{
-			float_value = (double)int_value;
-		}
-
 		is_integer = false;
 		// Читаем только десятичные цифры
 		// Все остальное относится к следюущим токенам
 		while (utf8_is_digit(scan(lxr)))
 		{
-			// Дальнейшие цифры не влияют на значение
-			if (float_value < 1e17)
-			{
-				float_value = float_value * 10 + utf8_to_number(lxr->character);
-				exponent--;
-			}
+			exponent += add_digit(digits, &amount, utf8_to_number(lxr->character)) - 1;
 		}
 	}
 
@@ -274,11 +307,6 @@ static token lex_numeric_literal(lexer *const lxr)
 
 		if (lxr->character == '-')
 		{
-			if (is_integer)
-			{
-				float_value = (double)int_value;
-			}
-
 			is_integer = false;
 			scan(lxr);
 			sign = -1;
@@ -315,7 +343,6 @@ static token lex_numeric_literal(lexer *const lxr)
 
 		if (is_integer)
 		{
-			float_value = (double)int_value;
 			for (int64_t i = 0; i < power && int_value != 0 && is_integer; i++)
 			{
 				if (int_value >= 0x1000000000000000)
@@ -334,12 +361,11 @@ static token lex_numeric_literal(lexer *const lxr)
 		exponent += sign * power;
 	}
 
-	if (float_value != 0.0)
+	if (!is_integer && base == 10)
 	{
-		// Деление на точную степень точнее умножения на приближенную
-		float_value = exponent < 0 && exponent >= -DBL_MAX_10_EXP
-			? float_value / pow(10.0, (double)-exponent)
-			: float_value * pow(10.0, (double)exponent);
+		// Ближайшее представимое значение ко всем прочитанным цифрам
+		sprintf(&digits[amount], "e%" PRIi64, exponent);
+		float_value = amount != 0 ? strtod(digits, NULL) : 0.0;
 	}
 
 	// Формируем результат
-- 
2.43.0


From d7f17d85039113275a226ad75f682ef868e75b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:49 +0000
Subject: [PATCH 050/104] fix: scan every conversion of a format, from files
 too

---
 libs/utils/uniio.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/utils/uniio.c b/libs/utils/uniio.c
index 6218fdc..315b045 100644
--- a/libs/utils/uniio.c
+++ b/libs/utils/uniio.c
@@ -114,9 +114,10 @@ static inline int in_func_position(universal_io *const io, const char *const for
 			if (format[i] != '%')
 			{
 				void *arg = va_arg(args, void *);
-				ret += scan_arg(io, &format[last], i + 1, arg);
+				const int scanned = scan_arg(io, &format[last], i + 1 - last, arg);
+				ret += scanned;
 
-				if (io->in_position >= io->in_size)
+				if ((scanned == 0 && !was_count) || (in_is_buffer(io) && io->in_position >= io->in_size))
 				{
 					return ret;
 				}
-- 
2.43.0


From d1696416fd073a8563f984daf29970f1950cf32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:03 +0000
Subject: [PATCH 051/104] fix: convert the letter io to upper case like the
 other russian letters

---
 libs/utils/utf8.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/utils/utf8.c b/libs/utils/utf8.c
index d0e38b1..838de8a 100644
--- a/libs/utils/utf8.c
+++ b/libs/utils/utf8.c
@@ -1066,6 +1066,11 @@ char32_t utf8_to_upper(const char32_t symbol)
 		return symbol + (U'А' - U'а');
 	}
 
+	if (symbol == U'ё')
+	{
+		return U'Ё';
+	}
+
 	return symbol;
 }
 
-- 
2.43.0


From 8b6acf52485c64192564c7b8b37d296cf18646e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:23 +0000
Subject: [PATCH 052/104] fix: letters of a number are not a macro name

---
 libs/macro/parser.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index c4ce146..2cb82de 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -227,6 +227,24 @@ static char32_t skip_string(parser *const prs, const char32_t quote)
 	return character;
 }
 
+/**
+ *	Write number token to output.
+ *	All letters and digits following the first digit belong to the same token.
+ *
+ *	@param	prs			Parser structure
+ */
+static inline void skip_number(parser *const prs)
+{
+	char32_t character = uni_scan_char(prs->io);
+	while (utf8_is_letter(character) || utf8_is_digit(character) || character == '.')
+	{
+		uni_print_char(prs->io, character);
+		character = uni_scan_char(prs->io);
+	}
+
+	uni_unscan_char(prs->io, character);
+}
+
 /**
  *	Skip all comments, space and tab characters until first significant character.
  *	Line break is also a significant character.
@@ -463,6 +481,10 @@ static inline char32_t skip_macro(parser *const prs, const keyword_t keyword)
 			}
 			uni_print_char(prs->io, character);
 		}
+		else if (utf8_is_digit(character))
+		{
+			skip_number(prs);
+		}
 		else if (character == '#' && keyword != KW_DEFINE && keyword != KW_SET
 			&& keyword != KW_IF && keyword != KW_ELIF && keyword != KW_WHILE && keyword != KW_EVAL)
 		{
@@ -888,6 +910,10 @@ static inline char32_t parse_until(parser *const prs)
 		{
 			parse_identifier(prs);
 		}
+		else if (utf8_is_digit(character))
+		{
+			skip_number(prs);
+		}
 		else if (character == '#')
 		{
 			loc_search_from(prs->loc);
@@ -1861,6 +1887,10 @@ static inline char *parse_content(parser *const prs, storage *const stg)
 					uni_printf(prs->io, "%s", storage_last_read(stg));
 				}
 			}
+			else if (utf8_is_digit(character))
+			{
+				skip_number(prs);
+			}
 			else if (character == '\'' || character == '"')
 			{
 				uni_print_char(prs->io, uni_scan_char(prs->io));
-- 
2.43.0


From a160f76610bab5d3fc2019b45ad663036fe72984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:37 +0000
Subject: [PATCH 053/104] fix: stringizing escapes every backslash of a literal

---
 libs/macro/parser.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 2cb82de..619620d 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -624,16 +624,23 @@ static inline void parse_values(parser *const prs, const size_t index, storage *
 	in_set_position(&io, 0);
 	out_set_buffer(&io, MAX_VALUE_SIZE);
 	uni_print_char(&io, '"');
+	char32_t quote = '\0';
+	bool was_slash = false;
 	for (char32_t ch = uni_scan_char(&io); ch != (char32_t)EOF; ch = uni_scan_char(&io))
 	{
-		if (ch == '\\')
+		uni_printf(&io, "%s", ch == '"' || (ch == '\\' && quote != '\0') ? "\\" : "");
+		uni_print_char(&io, ch);
+
+		if (quote == '\0')
 		{
-			ch = uni_scan_char(&io);
-			uni_printf(&io, "%s", ch == '"' ? "\\\\" : ch != (char32_t)EOF ? "\\" : "");
+			quote = ch == '\'' || ch == '"' ? ch : '\0';
+		}
+		else if (ch == quote && !was_slash)
+		{
+			quote = '\0';
 		}
 
-		uni_printf(&io, "%s", ch == '"' ? "\\" : "");
-		uni_print_char(&io, ch);
+		was_slash = quote != '\0' && !was_slash && ch == '\\';
 	}
 	uni_print_char(&io, '"');
 	in_clear(&io);
-- 
2.43.0


From 8bb2594ef4f7c46c13cf25b5e826468033db3609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:52 +0000
Subject: [PATCH 054/104] fix: argument before a token-pasting operator is not
 expanded

---
 libs/macro/parser.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 619620d..a8af5f8 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -1848,6 +1848,26 @@ static inline bool parse_operator(parser *const prs, storage *const stg, const b
 	return true;
 }
 
+/**
+ *	Check that the next token is a token-pasting operator.
+ *	Nothing will be read from the input.
+ *
+ *	@param	prs			Parser structure
+ *
+ *	@return	@c true, if operator follows
+ */
+static inline bool is_paste_next(parser *const prs)
+{
+	const size_t position = in_get_position(prs->io);
+	location loc = loc_copy(prs->loc);
+	const bool is_paste = skip_until(prs, false) == '#' && uni_scan_char(prs->io) == '#'
+		&& uni_scan_char(prs->io) == '#';
+
+	*prs->loc = loc;
+	in_set_position(prs->io, position);
+	return is_paste;
+}
+
 /**
  *	Parse macro content and prepare value for saving.
  *	All separator sequences will be replaced by a single space.
@@ -1887,7 +1907,7 @@ static inline char *parse_content(parser *const prs, storage *const stg)
 				const char *value = storage_get_by_index(stg, storage_search(stg, prs->io));
 				if (value != NULL)
 				{
-					uni_printf(prs->io, MASK_ARGUMENT "%s", value);
+					uni_printf(prs->io, "%s%s", is_paste_next(prs) ? MASK_TOKEN_PASTE : MASK_ARGUMENT, value);
 				}
 				else
 				{
-- 
2.43.0


From 7acf9c915dd3ca15213c0d2c5f0d2bb9fb603268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:06 +0000
Subject: [PATCH 055/104] fix: unterminated quote in a skipped group ends with
 its line

---
 libs/macro/parser.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index a8af5f8..c90277c 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -359,11 +359,20 @@ static inline char32_t skip_expression(parser *const prs)
 			prs->is_recovery_disabled = true;
 			prs->was_error = true;
 
+			const size_t position = in_get_position(prs->io);
+			const location loc = *prs->loc;
+
 			universal_io out = io_create();
 			out_swap(prs->io, &out);
-			skip_string(prs, character);
+			const bool is_terminated = skip_string(prs, character) == character;
 			out_swap(prs->io, &out);
 
+			if (!is_terminated)
+			{
+				in_set_position(prs->io, position);
+				*prs->loc = loc;
+			}
+
 			prs->was_error = was_error;
 			prs->is_recovery_disabled = is_recovery_disabled;
 		}
-- 
2.43.0


From 1b2a0e09cfd6fec8877eda5fc16b91035153d86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:20 +0000
Subject: [PATCH 056/104] fix: number with a base prefix may come from a macro

---
 libs/macro/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index c90277c..69036f6 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -1256,12 +1256,13 @@ static inline bool parse_number(parser *const prs, computer *const comp, const s
 {
 	location loc = loc_copy(prs->loc);
 
+	const size_t begin = in_get_position(prs->io);
 	unsigned long long number = 0;
 	uni_scanf(prs->io, "%lld", &number);
 	size_t position = in_get_position(prs->io);
 	char32_t character = skip_until(prs, false);
 
-	if (number == 0 && pos + 1 == in_get_position(prs->io))
+	if (number == 0 && begin + 1 == in_get_position(prs->io))
 	{
 		bool was_error = false;
 		if (character == 'x' || character == 'X')
-- 
2.43.0


From 51e897ef312343fdfb763f06680454c638dc4b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:34 +0000
Subject: [PATCH 057/104] fix: macro redefined to be empty has no value

---
 libs/macro/storage.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libs/macro/storage.c b/libs/macro/storage.c
index 26c1808..faad6e3 100644
--- a/libs/macro/storage.c
+++ b/libs/macro/storage.c
@@ -162,10 +162,7 @@ size_t storage_set_by_index(storage *const stg, const size_t id, const char *val
 	}
 
 	const size_t index = strings_add(&stg->vec, value);
-	if (index != SIZE_MAX)
-	{
-		hash_set_by_index(&stg->hs, id, 0, (item_t)index);
-	}
+	hash_set_by_index(&stg->hs, id, 0, index != SIZE_MAX ? (item_t)index : ITEM_MAX);
 	return id;
 }
 
-- 
2.43.0


From ffe5c199c6be231afeb9db2f8510494e85e5042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:48 +0000
Subject: [PATCH 058/104] fix: argument that expands to nothing is replaced by
 nothing

---
 libs/macro/parser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 69036f6..538c8fe 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -747,8 +747,9 @@ static inline void parse_observation(parser *const prs, const size_t index, stor
 		if (ch == '#' || utf8_is_letter(ch))
 		{
 			const size_t current = storage_search(stg, prs->io);
-			uni_printf(prs->io, "%s", kw_is_correct(current) || current == SIZE_MAX
-				? storage_last_read(stg) : storage_get_by_index(stg, current));
+			const char *replacement = kw_is_correct(current) || current == SIZE_MAX
+				? storage_last_read(stg) : storage_get_by_index(stg, current);
+			uni_printf(prs->io, "%s", replacement != NULL ? replacement : "");
 		}
 		else if (ch == '\'' || ch == '"')
 		{
-- 
2.43.0


From 911388b3db48d6b09e3f4991053241cce4b293ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:18 +0000
Subject: [PATCH 059/104] fix: error found in a skipped group makes
 preprocessing fail

---
 libs/macro/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 538c8fe..d905b38 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -528,7 +528,7 @@ static inline char32_t skip_macro(parser *const prs, const keyword_t keyword)
 static keyword_t skip_block(parser *const prs, const keyword_t begin)
 {
 	universal_io out = io_create();
-	const bool was_error = prs->was_error;
+	bool was_error = prs->was_error;
 	const bool is_recovery_disabled = prs->is_recovery_disabled;
 	const bool is_root_macro = begin == KW_MACRO && !prs->is_macro_processed && out_is_correct(prs->io);
 	prs->is_macro_processed = is_root_macro ? true : prs->is_macro_processed;
@@ -538,6 +538,7 @@ static keyword_t skip_block(parser *const prs, const keyword_t begin)
 	{
 		if (!prs->is_macro_processed)
 		{
+			was_error = prs->was_error;
 			prs->is_recovery_disabled = true;
 			prs->was_error = true;
 		}
-- 
2.43.0


From aad8569e543ddaa7dccec10ff7e5c86935a68d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:26 +0000
Subject: [PATCH 060/104] fix: names of included files are relative to the file
 that includes them

---
 libs/macro/linker.c | 2 +-
 libs/macro/parser.c | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/macro/linker.c b/libs/macro/linker.c
index ab88879..d9a416e 100644
--- a/libs/macro/linker.c
+++ b/libs/macro/linker.c
@@ -177,7 +177,7 @@ size_t linker_get_index(const linker *const lk)
 
 int linker_set_index(linker *const lk, const size_t index)
 {
-	if (!linker_is_correct(lk) && index >= ws_get_files_num(lk->ws))
+	if (!linker_is_correct(lk) || index >= ws_get_files_num(lk->ws))
 	{
 		return -1;
 	}
diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index d905b38..5f8eb5e 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -1164,8 +1164,10 @@ static inline void parse_path(parser *const prs, const char32_t quote)
 	}
 
 	parse_extra(prs, storage_last_read(prs->stg));
+	const size_t current = linker_get_index(prs->lk);
 	universal_io header = linker_add_header(prs->lk, index);
 	parser_preprocess(prs, &header);
+	linker_set_index(prs->lk, current);
 	in_clear(&header);
 }
 
-- 
2.43.0


From d21461d70a04534b2487e6bdfd4364a85c5514fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:41 +0000
Subject: [PATCH 061/104] fix: included file that cannot be read is an error

---
 libs/macro/linker.c |  6 ++++++
 libs/macro/linker.h | 10 ++++++++++
 libs/macro/parser.c |  7 +++++++
 3 files changed, 23 insertions(+)

diff --git a/libs/macro/linker.c b/libs/macro/linker.c
index d9a416e..5ff1029 100644
--- a/libs/macro/linker.c
+++ b/libs/macro/linker.c
@@ -147,6 +147,12 @@ universal_io linker_add_header(linker *const lk, const size_t index)
 }
 
 
+bool linker_is_included(const linker *const lk, const size_t index)
+{
+	return linker_is_correct(lk) && vector_get(&lk->included, index) == 1;
+}
+
+
 size_t linker_search_internal(linker *const lk, const char *const file)
 {
 	if (!linker_is_correct(lk) || file == NULL)
diff --git a/libs/macro/linker.h b/libs/macro/linker.h
index bf1bdf3..6a0ff5a 100644
--- a/libs/macro/linker.h
+++ b/libs/macro/linker.h
@@ -70,6 +70,16 @@ universal_io linker_add_source(linker *const lk, const size_t index);
  */
 universal_io linker_add_header(linker *const lk, const size_t index);
 
+/**
+ *	Check that file has been already added
+ *
+ *	@param	lk			Linker structure
+ *	@param	index		File index
+ *
+ *	@return	@c true, if file was added as source or header
+ */
+bool linker_is_included(const linker *const lk, const size_t index);
+
 
 /**
  *	Search file into same folder first
diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 5f8eb5e..80c286f 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -1165,7 +1165,14 @@ static inline void parse_path(parser *const prs, const char32_t quote)
 
 	parse_extra(prs, storage_last_read(prs->stg));
 	const size_t current = linker_get_index(prs->lk);
+	const bool was_included = linker_is_included(prs->lk, index);
 	universal_io header = linker_add_header(prs->lk, index);
+	if (!was_included && !in_is_correct(&header))
+	{
+		parser_error(prs, &loc, INCLUDE_NO_SUCH_FILE);
+		return;
+	}
+
 	parser_preprocess(prs, &header);
 	linker_set_index(prs->lk, current);
 	in_clear(&header);
-- 
2.43.0


From 959dcfc4a3fc96448cb8943a871b2922b429fb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:54 +0000
Subject: [PATCH 062/104] fix: source file may be read-only

---
 libs/utils/uniio.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/utils/uniio.c b/libs/utils/uniio.c
index 315b045..b36387b 100644
--- a/libs/utils/uniio.c
+++ b/libs/utils/uniio.c
@@ -266,12 +266,22 @@ int in_set_file(universal_io *const io, const char *const path)
 		return -1;
 	}
 
-	io->in_file = fopen(path, "r+b");
+	io->in_file = fopen(path, "rb");
 	if (io->in_file == NULL)
 	{
 		return -1;
 	}
 
+	// A directory may be opened, but not read
+	fgetc(io->in_file);
+	if (ferror(io->in_file))
+	{
+		fclose(io->in_file);
+		io->in_file = NULL;
+		return -1;
+	}
+
+	rewind(io->in_file);
 	io->in_position = 0;
 
 	io->in_func = &in_func_file;
-- 
2.43.0


From 5b650ab5e0448c0517997ee86c6f62bf3b6f89d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:43 +0000
Subject: [PATCH 063/104] fix: parent of the root directory is the root

---
 libs/utils/workspace.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/utils/workspace.c b/libs/utils/workspace.c
index a76f3f9..9458804 100644
--- a/libs/utils/workspace.c
+++ b/libs/utils/workspace.c
@@ -83,6 +83,9 @@ static void ws_unix_path(const char *const path, char *const buffer)
 				{
 					j--;
 				}
+
+				// Parent of the root is the root itself
+				j = j == 0 && buffer[0] == '/' ? 1 : j;
 			}
 
 			last = j;
-- 
2.43.0


From 3e202ceade320555556171a24ec46a402507ca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:57 +0000
Subject: [PATCH 064/104] fix: endless recursion of a macro with arguments
 takes endless time

---
 libs/macro/parser.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 80c286f..f54cf4a 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -817,7 +817,11 @@ static bool parse_replacement(parser *const prs, const size_t index)
 	const size_t actual = parse_brackets(prs, index, &stg);
 	if (expected == actual)
 	{
-		parse_observation(prs, index, &stg);
+		// Values of an endless recursion may double at each level
+		if (!prs->is_depth_exceeded)
+		{
+			parse_observation(prs, index, &stg);
+		}
 	}
 	else if (actual != SIZE_MAX)
 	{
-- 
2.43.0


From 5ecf322429faa9ba285a1f915606fc9003892d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:43 +0000
Subject: [PATCH 065/104] fix: token-pasting operator is searched without
 measuring the line

---
 libs/macro/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index f54cf4a..3db7087 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -1884,7 +1884,7 @@ static inline bool parse_operator(parser *const prs, storage *const stg, const b
 static inline bool is_paste_next(parser *const prs)
 {
 	const size_t position = in_get_position(prs->io);
-	location loc = loc_copy(prs->loc);
+	const location loc = *prs->loc;
 	const bool is_paste = skip_until(prs, false) == '#' && uni_scan_char(prs->io) == '#'
 		&& uni_scan_char(prs->io) == '#';
 
-- 
2.43.0


From e3daab2c0a4fa1980cdf8293c051740b13f10855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:40 +0000
Subject: [PATCH 066/104] fix: names of types are told from variables and
 functions in large programs

---
 libs/compiler/builder.c | 2 +-
 libs/compiler/parser.c  | 6 +++---
 libs/compiler/syntax.c  | 9 +++++----
 libs/compiler/syntax.h  | 3 +++
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index eb21935..94d2eea 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -1209,7 +1209,7 @@ node build_struct_declaration(builder *const bldr, node *const declaration, node
 
 	const size_t name = declaration_struct_get_name(declaration);
 	const item_t type = type_structure(bldr->sx, &types, &names);
-	const size_t id = ident_add(bldr->sx, name, 1000, type, 0);
+	const size_t id = ident_add(bldr->sx, name, TYPE_SPECIFIER_DISPL, type, 0);
 
 	vector_clear(&types);
 	vector_clear(&names);
diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index fa771df..e07a2d5 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -254,7 +254,7 @@ static void skip_until(parser *const prs, const uint8_t tokens)
  *						@c  0 for variable,
  *						@c  1 for label,
  *						@c  funcnum for function,
- *						@c  >= @c 100 for type specifier
+ *						@c TYPE_SPECIFIER_DISPL for type specifier
  *	@param	mode		New identifier mode
  *
  *	@return	Index of the last item in identifiers table
@@ -878,7 +878,7 @@ static item_t parse_type_specifier(parser *const prs, const node *const parent)
 			{
 				const size_t repr = token_get_ident_name(&prs->tk);
 				consume_token(prs);
-				to_identab(prs, repr, 1000, type);
+				to_identab(prs, repr, TYPE_SPECIFIER_DISPL, type);
 				prs->was_type_def = true;
 				if (token_is_not(&prs->tk, TK_SEMICOLON))
 				{
@@ -1153,7 +1153,7 @@ static item_t parse_enum_specifier(parser *const prs, const node *const parent)
 			if (token_is(&prs->tk, TK_L_BRACE))
 			{
 				const item_t type = parse_enum_declaration_list(prs, parent);
-				const size_t id = to_identab(prs, repr, 1000, type);
+				const size_t id = to_identab(prs, repr, TYPE_SPECIFIER_DISPL, type);
 				prs->was_type_def = true;
 				return ident_get_type(prs->sx, (size_t)id);
 			}
diff --git a/libs/compiler/syntax.c b/libs/compiler/syntax.c
index 5473aac..f210b65 100644
--- a/libs/compiler/syntax.c
+++ b/libs/compiler/syntax.c
@@ -424,12 +424,12 @@ size_t ident_add(syntax *const sx, const size_t repr, const item_t kind, const i
 		ident_set_type(sx, last_id, 0);
 		ident_set_displ(sx, last_id, 0);
 	}
-	else if (kind >= 1000)
+	else if (kind == TYPE_SPECIFIER_DISPL)
 	{
-		// Это описание типа, а (type-1000) – это номер инициирующей процедуры
+		// Это описание типа
 		ident_set_displ(sx, last_id, kind);
 	}
-	else if (kind > 1 && type < 1000)
+	else if (kind > 1)
 	{
 		// Это функция, и в поле displ находится её номер
 		ident_set_displ(sx, last_id, kind);
@@ -497,7 +497,8 @@ int ident_set_displ(syntax *const sx, const size_t index, const item_t displ)
 
 bool ident_is_type_specifier(syntax *const sx, const size_t index)
 {
-	return ident_get_displ(sx, index) >= 1000;
+	return ident_get_displ(sx, index) == TYPE_SPECIFIER_DISPL
+		&& !type_is_enum_field(sx, ident_get_type(sx, index));
 }
 
 bool ident_is_local(const syntax *const sx, const size_t index)
diff --git a/libs/compiler/syntax.h b/libs/compiler/syntax.h
index 6a80122..523e01b 100644
--- a/libs/compiler/syntax.h
+++ b/libs/compiler/syntax.h
@@ -29,6 +29,9 @@
 
 #define MAX_STRING_LENGTH 128
 
+/** Displacement of a type name, never equal to a displacement of a variable or to a number of a function */
+#define TYPE_SPECIFIER_DISPL (ITEM_MAX - 1)
+
 
 #ifdef __cplusplus
 extern "C" {
-- 
2.43.0


From 199caf9f17456f23899b06e9877d320980a21886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:53 +0000
Subject: [PATCH 067/104] fix: increment and decrement of a constant is an
 error

---
 libs/compiler/builder.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 94d2eea..91ec35b 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -834,6 +834,12 @@ node build_unary_expression(builder *const bldr, node *const operand, const unar
 				return node_broken();
 			}
 
+			if (type_is_const(bldr->sx, operand_type))
+			{
+				semantic_error(bldr, op_loc, assign_to_const);
+				return node_broken();
+			}
+
 			return expression_unary(operand_type, RVALUE, operand, op_kind, loc);
 		}
 
-- 
2.43.0


From f71e620875762f38929b0b5a70ba881d7d8bde14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:07 +0000
Subject: [PATCH 068/104] fix: comparison and choice of values ignore const

---
 libs/compiler/builder.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 91ec35b..662469f 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -445,6 +445,13 @@ builder builder_create(syntax *const sx)
 }
 
 
+/** Check if unqualified versions of types are the same */
+static bool types_are_compatible(const syntax *const sx, const item_t first, const item_t second)
+{
+	return (type_is_const(sx, first) ? type_const_get_unqualified_type(sx, first) : first)
+		== (type_is_const(sx, second) ? type_const_get_unqualified_type(sx, second) : second);
+}
+
 bool check_assignment_operands(builder *const bldr, const item_t expected_type, node *const init, const bool is_declaration)
 {
 	if (!node_is_correct(init))
@@ -1009,7 +1016,7 @@ node build_binary_expression(builder *const bldr, node *const LHS, node *const R
 
 			if ((type_is_pointer(bldr->sx, left_type) && type_is_null_pointer(right_type))
 				|| (type_is_null_pointer(left_type) && type_is_pointer(bldr->sx, right_type))
-				|| left_type == right_type)
+				|| types_are_compatible(bldr->sx, left_type, right_type))
 			{
 				return fold_binary_expression(bldr, TYPE_BOOLEAN, LHS, RHS, op_kind, loc);
 			}
@@ -1114,7 +1121,7 @@ node build_ternary_expression(builder *const bldr, node *const cond, node *const
 	}
 
 	if ((type_is_null_pointer(LHS_type) && type_is_pointer(bldr->sx, RHS_type))
-		|| (LHS_type == RHS_type))
+		|| types_are_compatible(bldr->sx, LHS_type, RHS_type))
 	{
 		return expression_ternary(RHS_type, cond, LHS, RHS, loc);
 	}
-- 
2.43.0


From 783b6c9b4c91b00cd179e7fe722ee55c4442333c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:21 +0000
Subject: [PATCH 069/104] fix: constant array size must be positive

---
 libs/compiler/builder.c | 12 ++++++++++++
 libs/compiler/errors.c  |  3 +++
 libs/compiler/errors.h  |  1 +
 3 files changed, 16 insertions(+)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 662469f..cf94132 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -1170,6 +1170,16 @@ node build_empty_bound_expression(builder *const bldr, const location loc)
 }
 
 
+/** Report a constant array size which is not positive */
+static void check_bound_value(builder *const bldr, const node *const bound)
+{
+	if (node_is_correct(bound) && expression_get_class(bound) == EXPR_LITERAL
+		&& type_is_integer(bldr->sx, expression_get_type(bound)) && expression_literal_get_integer(bound) <= 0)
+	{
+		semantic_error(bldr, node_get_location(bound), array_size_must_be_positive);
+	}
+}
+
 node build_member_declaration(builder *const bldr, const item_t type, const size_t name, const bool was_star
 	, const bool was_const, node_vector *const bounds, const location loc)
 {
@@ -1192,6 +1202,7 @@ node build_member_declaration(builder *const bldr, const item_t type, const size
 		{
 			semantic_error(bldr, node_get_location(&bound), array_size_must_be_int);
 		}
+		check_bound_value(bldr, &bound);
 	}
 
 	return declaration_member(&bldr->context, member_type, name, bounds, loc);
@@ -1263,6 +1274,7 @@ node build_declarator(builder *const bldr, const item_t type, const size_t name
 		{
 			semantic_error(bldr, node_get_location(&bound), array_size_must_be_int);
 		}
+		check_bound_value(bldr, &bound);
 		if (expression_get_class(&bound) == EXPR_EMPTY_BOUND)
 		{
 			if (i + 1 != bounds_amount)
diff --git a/libs/compiler/errors.c b/libs/compiler/errors.c
index 206355f..9b2f810 100644
--- a/libs/compiler/errors.c
+++ b/libs/compiler/errors.c
@@ -396,6 +396,9 @@ static void get_error(const err_t num, char *const msg, va_list args)
 		case array_size_must_be_int:	// test_exist
 			sprintf(msg, "размер массива может иметь тип только ЦЕЛ или ЛИТЕРА");
 			break;
+		case array_size_must_be_positive:
+			sprintf(msg, "размер массива должен быть больше нуля");
+			break;
 		case no_semicolon_in_struct:	// need_test
 			sprintf(msg, "описание поля структуры должно заканчиваться ;");
 			break;
diff --git a/libs/compiler/errors.h b/libs/compiler/errors.h
index 5c590f4..a2bb256 100644
--- a/libs/compiler/errors.h
+++ b/libs/compiler/errors.h
@@ -146,6 +146,7 @@ typedef enum ERROR
 	wrong_struct,
 	pnt_before_array,
 	array_size_must_be_int,
+	array_size_must_be_positive,
 	no_semicolon_in_struct,
 	no_comma_in_enum,
 	wait_ident_after_semicolon_in_struct,
-- 
2.43.0


From 3ae8fd660a1d9d13fc0afd3eff971ea921a638df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:35 +0000
Subject: [PATCH 070/104] fix: array initializer must have as many elements as
 the array

---
 libs/compiler/builder.c | 29 ++++++++++++++++++++++++++++-
 libs/compiler/errors.c  |  7 +++++++
 libs/compiler/errors.h  |  1 +
 3 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index cf94132..96e2de7 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -1250,6 +1250,30 @@ node build_struct_declaration(builder *const bldr, node *const declaration, node
 	return declaration_struct_set_location(declaration, loc);
 }
 
+/** Report an initializer list which has not as many elements as the array of a constant size */
+static void check_initializer_amount(builder *const bldr, const node_vector *const bounds, const size_t index, const node *const init)
+{
+	if (index == node_vector_size(bounds) || !node_is_correct(init) || expression_get_class(init) != EXPR_INITIALIZER)
+	{
+		return;
+	}
+
+	const size_t amount = expression_initializer_get_size(init);
+	const node bound = node_vector_get(bounds, index);
+	if (node_is_correct(&bound) && expression_get_class(&bound) == EXPR_LITERAL
+		&& type_is_integer(bldr->sx, expression_get_type(&bound)) && expression_literal_get_integer(&bound) != (item_t)amount)
+	{
+		semantic_error(bldr, node_get_location(init), wrong_array_initializer_amount, (size_t)expression_literal_get_integer(&bound), amount);
+		return;
+	}
+
+	for (size_t i = 0; i < amount; i++)
+	{
+		const node subexpr = expression_initializer_get_subexpr(init, i);
+		check_initializer_amount(bldr, bounds, index + 1, &subexpr);
+	}
+}
+
 node build_declarator(builder *const bldr, const item_t type, const size_t name
    , const bool was_star, const bool was_const, node_vector *const bounds, node *const initializer, const location ident_loc)
 {
@@ -1288,7 +1312,10 @@ node build_declarator(builder *const bldr, const item_t type, const size_t name
 
 	if (initializer)
 	{
-		check_assignment_operands(bldr, variable_type, initializer, /*is_declaration:*/ true);
+		if (check_assignment_operands(bldr, variable_type, initializer, /*is_declaration:*/ true))
+		{
+			check_initializer_amount(bldr, bounds, 0, initializer);
+		}
 	}
 	else if (has_empty_bounds)
 	{
diff --git a/libs/compiler/errors.c b/libs/compiler/errors.c
index 9b2f810..7b4203f 100644
--- a/libs/compiler/errors.c
+++ b/libs/compiler/errors.c
@@ -390,6 +390,13 @@ static void get_error(const err_t num, char *const msg, va_list args)
 		case wrong_init:	//test_exist
 			sprintf(msg, "переменные такого типа нельзя инициализировать");
 			break;
+		case wrong_array_initializer_amount:
+		{
+			const size_t expected = va_arg(args, size_t);
+			const size_t actual = va_arg(args, size_t);
+			sprintf(msg, "в инициализаторе массива должно быть %zu элементов, а не %zu", expected, actual);
+		}
+		break;
 		case pnt_before_array:	// test_exist
 			sprintf(msg, "в РуСи не бывает указателей на массивы");
 			break;
diff --git a/libs/compiler/errors.h b/libs/compiler/errors.h
index a2bb256..30e0112 100644
--- a/libs/compiler/errors.h
+++ b/libs/compiler/errors.h
@@ -89,6 +89,7 @@ typedef enum ERROR
 	nonvoid_func_void_return,				/**< Non-void function should return a value */
 	bad_type_in_ret,
 	wrong_init,
+	wrong_array_initializer_amount,
 	main_should_return_int_or_void,
 	main_should_be_defined,
 	wrong_main_parameters,
-- 
2.43.0


From c877b8956fd257025cf59bfbd82ea335a9d34824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:50 +0000
Subject: [PATCH 071/104] fix: structure without members is an error

---
 libs/compiler/parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index e07a2d5..0461ef7 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -996,6 +996,11 @@ static item_t parse_struct_declaration(parser *const prs, const node *const pare
 		node_vector_add(&members, &member);
 	}
 
+	if (node_vector_size(&members) == 0)
+	{
+		parser_error(prs, empty_struct);
+	}
+
 	const node result = build_struct_declaration(&prs->bld, &declaration, &members);
 
 	// FIXME: need a more beautiful way to do this
-- 
2.43.0


From c4e016170a207f69945dfb616ffed6dc64c5b29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:04 +0000
Subject: [PATCH 072/104] fix: member of a structure declared twice is an error

---
 libs/compiler/builder.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 96e2de7..a6b6ac4 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -1224,8 +1224,18 @@ node build_struct_declaration(builder *const bldr, node *const declaration, node
 		node member = node_vector_get(members, i);
 		if (node_is_correct(&member))
 		{
+			const item_t member_name = (item_t)declaration_member_get_name(&member);
+			for (size_t j = 0; j < vector_size(&names); j++)
+			{
+				if (vector_get(&names, j) == member_name)
+				{
+					semantic_error(bldr, node_get_location(&member), repeated_decl, repr_get_name(bldr->sx, (size_t)member_name));
+					break;
+				}
+			}
+
 			vector_add(&types, declaration_member_get_type(&member));
-			vector_add(&names, (item_t)declaration_member_get_name(&member));
+			vector_add(&names, member_name);
 
 			declaration_struct_add_declarator(declaration, &member);
 		}
-- 
2.43.0


From a83fa8b6258174250cbc1f9144d2febbb1597fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:18 +0000
Subject: [PATCH 073/104] fix: repeated case value or default label is an error

---
 libs/compiler/errors.c |  6 ++++++
 libs/compiler/errors.h |  2 ++
 libs/compiler/parser.c | 34 ++++++++++++++++++++++++++++++++++
 3 files changed, 42 insertions(+)

diff --git a/libs/compiler/errors.c b/libs/compiler/errors.c
index 7b4203f..f05f135 100644
--- a/libs/compiler/errors.c
+++ b/libs/compiler/errors.c
@@ -97,6 +97,12 @@ static void get_error(const err_t num, char *const msg, va_list args)
 		case default_not_in_switch:
 			sprintf(msg, "метка 'умолчание' не в операторе 'выбор'");
 			break;
+		case repeated_case_value:
+			sprintf(msg, "повторное значение метки 'случай' в операторе 'выбор'");
+			break;
+		case repeated_default:
+			sprintf(msg, "повторная метка 'умолчание' в операторе 'выбор'");
+			break;
 		case expected_colon_after_case:
 			sprintf(msg, "ожидалось ':' после выражения метки 'случай'");
 			break;
diff --git a/libs/compiler/errors.h b/libs/compiler/errors.h
index 30e0112..757da7f 100644
--- a/libs/compiler/errors.h
+++ b/libs/compiler/errors.h
@@ -48,6 +48,8 @@ typedef enum ERROR
 	expected_l_paren_in_condition,			/**< Expected '(' in condition */
 	case_not_in_switch,						/**< 'case' statement not in switch statement */
 	default_not_in_switch,					/**< 'default' statement not in switch statement */
+	repeated_case_value,				/**< Two 'case' statements of a switch have the same value */
+	repeated_default,					/**< Two 'default' statements in a switch */
 	expected_colon_after_case,				/**< Expected ':' after 'case' */
 	expected_colon_after_default,			/**< Expected ':' after 'default' */
 	expected_semi_after_expr,				/**< Expected ';' after expression */
diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index 0461ef7..bacb6d1 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -44,6 +44,9 @@ typedef struct parser
 
 	bool is_in_switch;					/**< Set, if parser is in switch body */
 	bool is_in_loop;					/**< Set, if parser is in loop body */
+	vector case_values;					/**< Values of case labels in switches being parsed */
+	size_t switch_begin;				/**< Index of the first value of the innermost switch */
+	bool was_default;					/**< Set, if was default label in the innermost switch */
 
 	bool was_return;					/**< Set, if was return in parsed function */
 	bool was_type_def;					/**< Set, if was type definition */
@@ -81,6 +84,9 @@ static inline parser parser_create(syntax *const sx)
 
 	prs.is_in_loop = false;
 	prs.is_in_switch = false;
+	prs.case_values = vector_create(0);
+	prs.switch_begin = 0;
+	prs.was_default = false;
 
 	consume_token(&prs);
 
@@ -95,6 +101,7 @@ static inline parser parser_create(syntax *const sx)
 static inline void parser_clear(parser *const prs)
 {
 	lexer_clear(&prs->lxr);
+	vector_clear(&prs->case_values);
 }
 
 /**
@@ -1374,6 +1381,20 @@ static node parse_case_statement(parser *const prs)
 		return node_broken();
 	}
 
+	if (expression_get_class(&expr) == EXPR_LITERAL && type_is_integer(prs->sx, expression_get_type(&expr)))
+	{
+		const item_t value = expression_literal_get_integer(&expr);
+		for (size_t i = prs->switch_begin; i < vector_size(&prs->case_values); i++)
+		{
+			if (vector_get(&prs->case_values, i) == value)
+			{
+				parser_error(prs, repeated_case_value);
+				break;
+			}
+		}
+		vector_add(&prs->case_values, value);
+	}
+
 	expect_and_consume(prs, TK_COLON, expected_colon_after_case);
 	node substmt = parse_statement(prs);
 
@@ -1402,6 +1423,12 @@ static node parse_default_statement(parser *const prs)
 		return node_broken();
 	}
 
+	if (prs->was_default)
+	{
+		parser_error(prs, repeated_default);
+	}
+	prs->was_default = true;
+
 	expect_and_consume(prs, TK_COLON, expected_colon_after_default);
 	node substmt = parse_statement(prs);
 
@@ -1537,7 +1564,14 @@ static node parse_switch_statement(parser *const prs)
 
 	const bool old_in_switch = prs->is_in_switch;
 	prs->is_in_switch = true;
+	const size_t old_switch_begin = prs->switch_begin;
+	prs->switch_begin = vector_size(&prs->case_values);
+	const bool old_was_default = prs->was_default;
+	prs->was_default = false;
 	node body = parse_statement(prs);
+	prs->was_default = old_was_default;
+	vector_resize(&prs->case_values, prs->switch_begin);
+	prs->switch_begin = old_switch_begin;
 	prs->is_in_switch = old_in_switch;
 
 	return build_switch_statement(&prs->bld, &condition, &body, switch_loc);
-- 
2.43.0


From 1985f5256df18c12045f4fc14d5beb379997bdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:31 +0000
Subject: [PATCH 074/104] fix: enumeration can be declared in a block

---
 libs/compiler/builder.c | 5 +++--
 libs/compiler/builder.h | 3 ++-
 libs/compiler/parser.c  | 5 ++++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index a6b6ac4..874a4ec 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -1370,10 +1370,11 @@ node build_empty_declaration(builder *const bldr)
 	return statement_declaration(&bldr->context);
 }
 
-node build_declaration(builder *const bldr, node *const declaration, node_vector *const declarators, const location loc)
+node build_declaration(builder *const bldr, node *const declaration, node_vector *const declarators
+	, const bool has_enum, const location loc)
 {
 	const size_t amount = node_vector_size(declarators);
-	if (amount == 0 && statement_declaration_get_size(declaration) == 0)
+	if (amount == 0 && statement_declaration_get_size(declaration) == 0 && !has_enum)
 	{
 		semantic_error(bldr, loc, declaration_does_not_declare_anything);
 	}
diff --git a/libs/compiler/builder.h b/libs/compiler/builder.h
index 4fe25b6..3325b59 100644
--- a/libs/compiler/builder.h
+++ b/libs/compiler/builder.h
@@ -342,12 +342,13 @@ node build_empty_declaration(builder *const bldr);
  *	@param	bldr			AST builder
  *	@param	declaration		Existing declaration
  *	@param	declarators		Declarators
+ *	@param	has_enum		@c true, if an enumeration is declared
  *	@param	semi_loc		Semicolon location
  *
  *	@return	Declaration
  */
 node build_declaration(builder *const bldr, node *const declaration
-	, node_vector *const declarators, const location semi_loc);
+	, node_vector *const declarators, const bool has_enum, const location semi_loc);
 
 
 /**
diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index bacb6d1..f204fff 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -1284,7 +1284,10 @@ static node parse_declaration(parser *const prs)
 	node declaration = build_empty_declaration(&prs->bld);
 	const location start_loc = token_get_location(&prs->tk);
 
+	const bool is_enum = token_is(&prs->tk, TK_ENUM);
+	prs->was_type_def = false;
 	const item_t type = parse_type_specifier(prs, &declaration);
+	const bool was_enum_declaration = is_enum && prs->was_type_def;
 	node_vector declarators = node_vector_create();
 
 	if (token_is_not(&prs->tk, TK_SEMICOLON))
@@ -1300,7 +1303,7 @@ static node parse_declaration(parser *const prs)
 	expect_and_consume(prs, TK_SEMICOLON, expected_semi_after_decl);
 
 	const location loc = { start_loc.begin, end_loc.end };
-	const node result = build_declaration(&prs->bld, &declaration, &declarators, loc);
+	const node result = build_declaration(&prs->bld, &declaration, &declarators, was_enum_declaration, loc);
 	node_vector_clear(&declarators);
 
 	return result;
-- 
2.43.0


From ac3a3be00153b89682bc86e84b7d3c1a32dd7b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:44 +0000
Subject: [PATCH 075/104] fix: struct and enum are followed by names of such
 types

---
 libs/compiler/parser.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index f204fff..004f296 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -1058,6 +1058,12 @@ static item_t parse_struct_specifier(parser *const prs, const node *const parent
 				return TYPE_UNDEFINED;
 			}
 
+			if (!ident_is_type_specifier(prs->sx, (size_t)id) || !type_is_structure(prs->sx, ident_get_type(prs->sx, (size_t)id)))
+			{
+				parser_error(prs, ident_not_type);
+				return TYPE_UNDEFINED;
+			}
+
 			return ident_get_type(prs->sx, (size_t)id);
 		}
 
@@ -1178,6 +1184,12 @@ static item_t parse_enum_specifier(parser *const prs, const node *const parent)
 					parser_error(prs, ident_is_not_declared, repr_get_name(prs->sx, repr));
 					return TYPE_UNDEFINED;
 				}
+
+				if (!ident_is_type_specifier(prs->sx, (size_t)id) || !type_is_enum(prs->sx, ident_get_type(prs->sx, (size_t)id)))
+				{
+					parser_error(prs, ident_not_type);
+					return TYPE_UNDEFINED;
+				}
 				return ident_get_type(prs->sx, (size_t)id);
 			}
 		}
-- 
2.43.0


From 2b4f2f1b32b3750c3af53ffbf7e97977cee441a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:57 +0000
Subject: [PATCH 076/104] fix: name of a type is not a value

---
 libs/compiler/builder.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 874a4ec..f56b1e0 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -581,6 +581,12 @@ node build_identifier_expression(builder *const bldr, const size_t name, const l
 		return node_broken();
 	}
 
+	if (ident_is_type_specifier(bldr->sx, (size_t)identifier))
+	{
+		semantic_error(bldr, loc, expected_expression);
+		return node_broken();
+	}
+
 	const item_t type = ident_get_type(bldr->sx, (size_t)identifier);
 	if (type_is_enum_field(bldr->sx, type))
 	{
-- 
2.43.0


From 6775dd7022ff81d7f978255b48f908eae3d4ce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:11 +0000
Subject: [PATCH 077/104] fix: enumerator value may be a character literal

---
 libs/compiler/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/parser.c b/libs/compiler/parser.c
index 004f296..bb4d6d8 100644
--- a/libs/compiler/parser.c
+++ b/libs/compiler/parser.c
@@ -1123,7 +1123,7 @@ static item_t parse_enum_declaration_list(parser *const prs, const node *const p
 			field_value = expression_literal_get_integer(&expr);
 			node_remove(&expr);
 
-			if (field_value == INT_MAX || (type_expr != TYPE_INTEGER && type_expr != type))
+			if (field_value == INT_MAX || (type_expr != TYPE_INTEGER && type_expr != TYPE_CHARACTER && type_expr != type))
 			{
 				parser_error(prs, not_const_int_expr);
 				vector_clear(&local_modetab);
-- 
2.43.0


From 7952ef6fa2504fe104cc187d7d9786a33f5ee84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:26 +0000
Subject: [PATCH 078/104] fix: function cannot be assigned

---
 libs/compiler/builder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index f56b1e0..6f45699 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -944,7 +944,7 @@ node build_binary_expression(builder *const bldr, node *const LHS, node *const R
 
 	if (operation_is_assignment(op_kind))
 	{
-		if (!expression_is_lvalue(LHS))
+		if (!expression_is_lvalue(LHS) || type_is_function(bldr->sx, left_type))
 		{
 			semantic_error(bldr, op_loc, unassignable_expression);
 			return node_broken();
-- 
2.43.0


From 44ca9f034dc3982e85156b70bae6acf74cc141bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:46 +0000
Subject: [PATCH 079/104] fix: line marks are not looked for in the text the
 user wrote

---
 libs/macro/parser.c  | 3 ++-
 libs/utils/locator.c | 3 ++-
 libs/utils/locator.h | 2 ++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index 3db7087..b68d15d 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -2516,7 +2516,8 @@ int parser_preprocess(parser *const prs, universal_io *const in)
 	prs->io = in;
 
 	prs->is_line_required = true;
-	location current = loc_search(prs->io);
+	location current = { .io = prs->io, .path = SIZE_MAX, .line = 1, .symbol = 1, .is_source = in_is_file(prs->io) };
+	loc_search_from(&current);
 	location *loc = prs->loc;
 	prs->loc = &current;
 
diff --git a/libs/utils/locator.c b/libs/utils/locator.c
index 916c6aa..d1d788f 100644
--- a/libs/utils/locator.c
+++ b/libs/utils/locator.c
@@ -275,6 +275,7 @@ location loc_search(universal_io *const io)
 	loc.code = 0;
 	loc.line = FIRST_LINE;
 	loc.symbol = FIRST_SYMBOL;
+	loc.is_source = false;
 
 	if (loc_search_from(&loc))
 	{
@@ -300,7 +301,7 @@ int loc_search_from(location *const loc)
 	size_t line = FIRST_LINE;
 	size_t path = SIZE_MAX;
 	size_t comment = SIZE_MAX;
-	if (mark_recognize(loc->io, &line, &path, &comment) && comment != SIZE_MAX)
+	if (!loc->is_source && mark_recognize(loc->io, &line, &path, &comment) && comment != SIZE_MAX)
 	{
 		loc->line = line;
 		loc->path = path;
diff --git a/libs/utils/locator.h b/libs/utils/locator.h
index 462c2db..bbba066 100644
--- a/libs/utils/locator.h
+++ b/libs/utils/locator.h
@@ -34,6 +34,8 @@ typedef struct location
 
 	size_t line;		/**< Line number */
 	size_t symbol;		/**< Symbol in line */
+
+	bool is_source;		/**< Set for the original text, which contains no marks */
 } location;
 
 
-- 
2.43.0


From fbbed9abfa35b0fad4c1124cbc1f4768aa4f22d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:44 +0000
Subject: [PATCH 080/104] fix: failed write of the output is an error

---
 libs/compiler/compiler.c |  8 +++++++-
 libs/macro/macro.c       |  7 ++++++-
 libs/utils/uniio.c       | 10 ++++++----
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/libs/compiler/compiler.c b/libs/compiler/compiler.c
index aa32f0a..d70a5dd 100644
--- a/libs/compiler/compiler.c
+++ b/libs/compiler/compiler.c
@@ -86,7 +86,13 @@ static status_t compile_from_io(const workspace *const ws, universal_io *const i
 	}
 
 	sx_clear(&sx);
-	io_erase(io);
+	if (io_erase(io) && !ret)
+	{
+		error_msg("не удалось записать выходной файл");
+		ret = -1;
+		sts = sts_codegen_error;
+	}
+
 	return ret ? sts : sts_success;
 }
 
diff --git a/libs/macro/macro.c b/libs/macro/macro.c
index 058268c..de69e23 100644
--- a/libs/macro/macro.c
+++ b/libs/macro/macro.c
@@ -195,7 +195,12 @@ int macro_to_file(workspace *const ws, const char *const path)
 
 	int ret = macro_form_io(ws, &io);
 
-	io_erase(&io);
+	if (io_erase(&io) && !ret)
+	{
+		macro_system_error(TAG_LINKER, LINKER_WRONG_IO);
+		ret = -1;
+	}
+
 	return ret;
 }
 
diff --git a/libs/utils/uniio.c b/libs/utils/uniio.c
index b36387b..c803206 100644
--- a/libs/utils/uniio.c
+++ b/libs/utils/uniio.c
@@ -619,10 +619,11 @@ int out_close_file(universal_io *const io)
 		return -1;
 	}
 
-	int ret = fclose(io->out_file);
+	const bool was_error = ferror(io->out_file) != 0;
+	const int ret = fclose(io->out_file);
 	io->out_file = NULL;
 
-	return ret;
+	return was_error || ret ? -1 : 0;
 }
 
 int out_clear(universal_io *const io)
@@ -632,9 +633,10 @@ int out_clear(universal_io *const io)
 		return -1;
 	}
 
+	int ret = 0;
 	if (out_is_file(io))
 	{
-		out_close_file(io);
+		ret = out_close_file(io);
 	}
 	else if (out_is_buffer(io))
 	{
@@ -646,7 +648,7 @@ int out_clear(universal_io *const io)
 	}
 
 	io->out_func = NULL;
-	return 0;
+	return ret;
 }
 
 
-- 
2.43.0


From e7205b0673a7edc6485cf625c6853c8eed5540db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:58 +0000
Subject: [PATCH 081/104] fix: -Wno suppresses the warnings of the compiler

---
 libs/compiler/lexer.c    | 2 +-
 libs/compiler/reporter.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index c755879..7bf1aea 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -376,7 +376,7 @@ static token lex_numeric_literal(lexer *const lxr)
 	}
 	else
 	{
-		if (!is_in_range)
+		if (!is_in_range && !lxr->sx->rprt.is_recovery_disabled)
 		{
 			// Вышли за пределы целого - конвертируем в double
 			warning(lxr->sx->io, too_long_int);
diff --git a/libs/compiler/reporter.c b/libs/compiler/reporter.c
index 4f8c828..1d3a3d9 100644
--- a/libs/compiler/reporter.c
+++ b/libs/compiler/reporter.c
@@ -51,7 +51,7 @@ void report_error(reporter *const rprt, universal_io *const io, const location l
 
 void report_warning(reporter *const rprt, universal_io *const io, const location loc, const warning_t num, va_list args)
 {
-	if (rprt->is_recovery_disabled && rprt->errors != 0)
+	if (rprt->is_recovery_disabled)
 	{
 		return;
 	}
-- 
2.43.0


From 6c7875deb96273803897d29e4cbee1a59aa2d93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:12 +0000
Subject: [PATCH 082/104] fix: failed read of a source is an error

---
 libs/macro/macro.c  |  6 +++++-
 libs/macro/parser.c |  5 ++++-
 libs/utils/uniio.c  | 10 ++++++----
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/libs/macro/macro.c b/libs/macro/macro.c
index de69e23..9ccc273 100644
--- a/libs/macro/macro.c
+++ b/libs/macro/macro.c
@@ -133,7 +133,11 @@ static int macro_form_io(workspace *const ws, universal_io *const output)
 		}
 
 		ret |= parser_preprocess(&prs, &in);
-		in_clear(&in);
+		if (in_clear(&in))
+		{
+			macro_system_error(TAG_LINKER, LINKER_CANNOT_OPEN);
+			ret = -1;
+		}
 	}
 
 	parser_clear(&prs);
diff --git a/libs/macro/parser.c b/libs/macro/parser.c
index b68d15d..b310f2c 100644
--- a/libs/macro/parser.c
+++ b/libs/macro/parser.c
@@ -1179,7 +1179,10 @@ static inline void parse_path(parser *const prs, const char32_t quote)
 
 	parser_preprocess(prs, &header);
 	linker_set_index(prs->lk, current);
-	in_clear(&header);
+	if (in_clear(&header))
+	{
+		parser_error(prs, &loc, INCLUDE_NO_SUCH_FILE);
+	}
 }
 
 /**
diff --git a/libs/utils/uniio.c b/libs/utils/uniio.c
index c803206..a84ddd4 100644
--- a/libs/utils/uniio.c
+++ b/libs/utils/uniio.c
@@ -432,12 +432,13 @@ int in_close_file(universal_io *const io)
 		return -1;
 	}
 
-	int ret = fclose(io->in_file);
+	const bool was_error = ferror(io->in_file) != 0;
+	const int ret = fclose(io->in_file);
 	io->in_file = NULL;
 
 	io->in_position = 0;
 
-	return ret;
+	return was_error || ret ? -1 : 0;
 }
 
 int in_clear(universal_io *const io)
@@ -447,9 +448,10 @@ int in_clear(universal_io *const io)
 		return -1;
 	}
 
+	int ret = 0;
 	if (in_is_file(io))
 	{
-		in_close_file(io);
+		ret = in_close_file(io);
 	}
 	else if (in_is_buffer(io))
 	{
@@ -464,7 +466,7 @@ int in_clear(universal_io *const io)
 	}
 
 	io->in_func = NULL;
-	return 0;
+	return ret;
 }
 
 
-- 
2.43.0


From 0ff17a74005b4904c20da04d2a644033bc145d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:26 +0000
Subject: [PATCH 083/104] fix: long paths are not cut in diagnostics

---
 libs/compiler/errors.c | 2 +-
 libs/utils/uniio.c     | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/errors.c b/libs/compiler/errors.c
index f05f135..5cfc87e 100644
--- a/libs/compiler/errors.c
+++ b/libs/compiler/errors.c
@@ -28,7 +28,7 @@
 
 #define TAG_RUC "ruc"
 
-#define MAX_TAG_SIZE 128
+#define MAX_TAG_SIZE 1024
 #define MAX_MSG_SIZE MAX_TAG_SIZE * 4
 #define MAX_LINE_SIZE MAX_TAG_SIZE * 4
 
diff --git a/libs/utils/uniio.c b/libs/utils/uniio.c
index a84ddd4..45f9d76 100644
--- a/libs/utils/uniio.c
+++ b/libs/utils/uniio.c
@@ -30,6 +30,7 @@
 	#include <unistd.h>
 
 	#define MAX_LINK_SIZE 20
+	#define MAX_PATH_SIZE 1024
 #endif
 
 #define MAX_FORMAT_SIZE 128
@@ -210,7 +211,7 @@ static inline size_t io_get_path(FILE *const file, char *const buffer)
 #else
 	char link[MAX_LINK_SIZE];
 	sprintf(link, "/proc/self/fd/%d", fileno(file));
-	int ret = readlink(link, buffer, 256);
+	int ret = readlink(link, buffer, MAX_PATH_SIZE - 1);
 
 	if (ret == -1)
 	{
-- 
2.43.0


From 598ef4f4a682c939ec618ae29329a8cb94ca894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:32 +0000
Subject: [PATCH 084/104] fix: empty string literals are stored

---
 libs/utils/strings.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libs/utils/strings.c b/libs/utils/strings.c
index 1580772..d07206d 100644
--- a/libs/utils/strings.c
+++ b/libs/utils/strings.c
@@ -138,8 +138,7 @@ size_t strings_add_by_utf8(strings *const vec, const char32_t *const str)
 
 size_t strings_add_by_vector(strings *const vec, const vector *const str)
 {
-	if (!strings_is_correct(vec) || !vector_is_correct(str) || vector_size(str) == 0 || vector_get(str, 0) == '\0'
-		|| strings_add_index(vec))
+	if (!strings_is_correct(vec) || !vector_is_correct(str) || strings_add_index(vec))
 	{
 		return SIZE_MAX;
 	}
@@ -160,7 +159,12 @@ size_t strings_add_by_vector(strings *const vec, const vector *const str)
 		vec->all_strings_size += utf8_to_string(&vec->all_strings[vec->all_strings_size], ch);
 	}
 
-	vec->all_strings_size++;
+	if (strings_increase(vec, 1))
+	{
+		return SIZE_MAX;
+	}
+
+	vec->all_strings[vec->all_strings_size++] = '\0';
 	return vec->indexes_size++;
 }
 
-- 
2.43.0


From fae8c45f35cebb432d4080e150e7b63c66eccd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:45 +0000
Subject: [PATCH 085/104] fix: comments and line marks may stand between the
 parts of a string literal

---
 libs/compiler/lexer.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/lexer.c b/libs/compiler/lexer.c
index 7bf1aea..d2ef329 100644
--- a/libs/compiler/lexer.c
+++ b/libs/compiler/lexer.c
@@ -121,6 +121,33 @@ static inline void skip_block_comment(lexer *const lxr)
 	scan(lxr);
 }
 
+/**
+ *	Skip over everything that may stand between two tokens
+ *
+ *	@param	lxr			Lexer
+ */
+static inline void skip_separators(lexer *const lxr)
+{
+	while (true)
+	{
+		skip_whitespace(lxr);
+
+		if ((lxr->character == '#' && lookahead(lxr) == 'l') || (lxr->character == '/' && lookahead(lxr) == '/'))
+		{
+			skip_line_comment(lxr);
+		}
+		else if (lxr->character == '/' && lookahead(lxr) == '*')
+		{
+			scan(lxr);
+			skip_block_comment(lxr);
+		}
+		else
+		{
+			return;
+		}
+	}
+}
+
 /**
  *	Lex identifier or keyword
  *
@@ -483,7 +510,7 @@ static token lex_string_literal(lexer *const lxr)
 			lexer_error(lxr, missing_terminating_quote_char);
 		}
 
-		skip_whitespace(lxr);
+		skip_separators(lxr);
 	}
 
 	const size_t loc_end = in_get_position(lxr->sx->io);
-- 
2.43.0


From f48d5322254b51b4d4aac8ddd82016a325d7aad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:25 +0000
Subject: [PATCH 086/104] fix: LLVM code keeps all the bits of floating
 constants

---
 libs/compiler/llvmgen.c | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index abb57e6..113cbea 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -248,6 +248,14 @@ static void type_to_io(information *const info, const item_t type)
 	}
 }
 
+static void double_to_io(information *const info, const double value)
+{
+	// Hexadecimal form is the only one that keeps all the bits
+	uint64_t bits = 0;
+	memcpy(&bits, &value, sizeof(bits));
+	uni_printf(info->sx->io, "0x%016" PRIX64, bits);
+}
+
 static void operation_to_io(information *const info, const binary_t operation_type, const item_t type)
 {
 	switch (operation_type)
@@ -360,7 +368,9 @@ static void to_code_operation_reg_const_double(information *const info, const bi
 {
 	uni_printf(info->sx->io, " %%.%zu = ", info->register_num);
 	operation_to_io(info, operation, TYPE_FLOATING);
-	uni_printf(info->sx->io, " double %%.%zu, %f\n", fst, snd);
+	uni_printf(info->sx->io, " double %%.%zu, ", fst);
+	double_to_io(info, snd);
+	uni_printf(info->sx->io, "\n");
 }
 
 static void to_code_operation_const_reg_integer(information *const info, const binary_t operation
@@ -378,7 +388,9 @@ static void to_code_operation_const_reg_double(information *const info, const bi
 {
 	uni_printf(info->sx->io, " %%.%zu = ", info->register_num);
 	operation_to_io(info, operation, TYPE_FLOATING);
-	uni_printf(info->sx->io, " double %f, %%.%zu\n", fst, snd);
+	uni_printf(info->sx->io, " double ");
+	double_to_io(info, fst);
+	uni_printf(info->sx->io, ", %%.%zu\n", snd);
 }
 
 static void to_code_operation_reg_null(information *const info, const binary_t operation
@@ -448,8 +460,10 @@ static inline void to_code_store_const_bool(information *const info, const bool
 static inline void to_code_store_const_double(information *const info, const double arg, const size_t id
 	, const bool is_array, const bool is_local)
 {
-	uni_printf(info->sx->io, " store double %f, double* %s%s.%zu, align 4\n"
-		, arg, is_local ? "%" : "@", is_array ? "" : "var", id);
+	uni_printf(info->sx->io, " store double ");
+	double_to_io(info, arg);
+	uni_printf(info->sx->io, ", double* %s%s.%zu, align 4\n"
+		, is_local ? "%" : "@", is_array ? "" : "var", id);
 }
 
 static void to_code_store_null(information *const info, const size_t id, const item_t type)
@@ -1167,7 +1181,8 @@ static void emit_call_expression(information *const info, const node *const nd)
 		}
 		else // double
 		{
-			uni_printf(info->sx->io, " %f", arguments_double[i]);
+			uni_printf(info->sx->io, " ");
+			double_to_io(info, arguments_double[i]);
 		}
 	}
 	uni_printf(info->sx->io, ")\n");
@@ -2179,7 +2194,8 @@ static void emit_initialization(information *const info, const node *const nd, c
 				// константа типа double
 				else
 				{
-					uni_printf(info->sx->io, "double %f", info->answer_const_double);
+					uni_printf(info->sx->io, "double ");
+					double_to_io(info, info->answer_const_double);
 				}
 			}
 
@@ -2327,7 +2343,9 @@ static void emit_variable_declaration(information *const info, const node *const
 				}
 				else
 				{
-					uni_printf(info->sx->io, " %f, align 4\n", info->answer_const_double);
+					uni_printf(info->sx->io, " ");
+					double_to_io(info, info->answer_const_double);
+					uni_printf(info->sx->io, ", align 4\n");
 				}
 			}
 		}
@@ -2816,7 +2834,9 @@ static void emit_return_statement(information *const info, const node *const nd)
 		}
 		else if (info->answer_kind == ACONST && type_is_floating(info->sx, answer_type))
 		{
-			uni_printf(info->sx->io, " ret double %f\n", info->answer_const_double);
+			uni_printf(info->sx->io, " ret double ");
+			double_to_io(info, info->answer_const_double);
+			uni_printf(info->sx->io, "\n");
 		}
 		else if (info->answer_kind == AREG)
 		{
-- 
2.43.0


From 1caa6a3ea79b3276bd7f044799d9df5c38c45692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:40 +0000
Subject: [PATCH 087/104] fix: return in main ends the program in LLVM code

---
 libs/compiler/llvmgen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 113cbea..a440f4a 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -2817,6 +2817,7 @@ static void emit_return_statement(information *const info, const node *const nd)
 
 	if (info->is_main)
 	{
+		uni_printf(info->sx->io, " ret i32 0\n");
 		return;
 	}
 
-- 
2.43.0


From 901d84eaf4f6e7a0e1d14c6d55617d938294fe1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:54 +0000
Subject: [PATCH 088/104] fix: continue goes to the condition or the increment
 in LLVM code

---
 libs/compiler/llvmgen.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index a440f4a..e8cb76e 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -2663,7 +2663,7 @@ static void emit_while_statement(information *const info, const node *const nd)
 	info->label_true = label_body;
 	info->label_false = label_end;
 	info->label_break = label_end;
-	info->label_continue = label_body;
+	info->label_continue = label_condition;
 
 	to_code_unconditional_branch(info, label_condition);
 	to_code_label(info, label_condition);
@@ -2701,12 +2701,13 @@ static void emit_do_statement(information *const info, const node *const nd)
 	const size_t old_label_break = info->label_break;
 	const size_t old_label_continue = info->label_continue;
 	const size_t label_loop = info->label_num++;
+	const size_t label_condition = info->label_num++;
 	const size_t label_end = info->label_num++;
 
 	info->label_true = label_loop;
 	info->label_false = label_end;
 	info->label_break = label_end;
-	info->label_continue = label_loop;
+	info->label_continue = label_condition;
 
 	to_code_unconditional_branch(info, label_loop);
 	to_code_label(info, label_loop);
@@ -2714,6 +2715,9 @@ static void emit_do_statement(information *const info, const node *const nd)
 	const node body = statement_do_get_body(nd);
 	emit_statement(info, &body);
 
+	to_code_unconditional_branch(info, label_condition);
+	to_code_label(info, label_condition);
+
 	info->variable_location = LFREE;
 	const node condition = statement_do_get_condition(nd);
 	emit_expression(info, &condition);
@@ -2749,7 +2753,7 @@ static void emit_for_statement(information *const info, const node *const nd)
 	info->label_true = label_body;
 	info->label_false = label_end;
 	info->label_break = label_end;
-	info->label_continue = label_body;
+	info->label_continue = label_incr;
 
 	if (statement_for_has_inition(nd))
 	{
@@ -2770,7 +2774,7 @@ static void emit_for_statement(information *const info, const node *const nd)
 	}
 	else
 	{
-		to_code_unconditional_branch(info, label_incr);
+		to_code_unconditional_branch(info, label_body);
 	}
 
 	to_code_label(info, label_incr);
-- 
2.43.0


From 24b4c4558cce7031bcaf2bec052ea22b689b271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:09 +0000
Subject: [PATCH 089/104] fix: default and nested switch in LLVM code

---
 libs/compiler/llvmgen.c | 72 +++++++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 21 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index e8cb76e..9d6eef0 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -24,7 +24,7 @@
 
 #define MAX_FUNCTION_ARGS 128
 #define MAX_PRINTF_ARGS 128
-#define MAX_CASES 4096
+#define MAX_CASES 64
 
 
 static const size_t HASH_TABLE_SIZE = 1024;
@@ -2866,7 +2866,7 @@ static void emit_default_statement(information *const info, const node *const nd
 {
 	to_code_unconditional_branch(info, info->label_switch);
 	to_code_label(info, info->label_switch);
-	info->label_switch--;
+	info->label_switch++;
 
 	const node substmt = statement_default_get_substmt(nd);
 	emit_statement(info, &substmt);
@@ -2882,7 +2882,7 @@ static void emit_case_statement(information *const info, const node *const nd)
 {
 	to_code_unconditional_branch(info, info->label_switch);
 	to_code_label(info, info->label_switch);
-	info->label_switch--;
+	info->label_switch++;
 
 	const node substmt = statement_case_get_substmt(nd);
 	emit_statement(info, &substmt);
@@ -2896,53 +2896,83 @@ static void emit_case_statement(information *const info, const node *const nd)
  */
 static void emit_switch_statement(information *const info, const node *const nd)
 {
-	item_t case_values[MAX_CASES];
+	const size_t old_label_switch = info->label_switch;
+	const size_t old_label_break = info->label_break;
 
+	info->variable_location = LFREE;
 	const node condition = statement_switch_get_condition(nd);
 	emit_expression(info, &condition);
 
+	if (info->answer_kind == ACONST)
+	{
+		uni_printf(info->sx->io, " %%.%zu = add nsw ", info->register_num);
+		type_to_io(info, expression_get_type(&condition));
+		uni_printf(info->sx->io, " 0, %" PRIitem "\n", info->answer_const);
+		info->answer_reg = info->register_num++;
+	}
+
+	const size_t condition_reg = info->answer_reg;
 	const node body = statement_switch_get_body(nd);
-	size_t case_num = 0;
-	int has_default = 0;
+	const size_t label_first = info->label_num;
+	size_t label_default = SIZE_MAX;
+	vector values = vector_create(MAX_CASES);
+	vector labels = vector_create(MAX_CASES);
 	if (statement_get_class(&body) == STMT_COMPOUND)
 	{
 		const size_t size = statement_compound_get_size(&body);
 		for (size_t i = 0; i < size; i++)
 		{
-			const node substmt = statement_compound_get_substmt(&body, i);
+			node substmt = statement_compound_get_substmt(&body, i);
 
-			if (statement_get_class(&substmt) == STMT_CASE)
+			// У одного оператора может быть несколько меток
+			while (statement_get_class(&substmt) == STMT_CASE || statement_get_class(&substmt) == STMT_DEFAULT)
 			{
-				const node expr = statement_case_get_expression(&substmt);
-				emit_expression(info, &expr);
+				if (statement_get_class(&substmt) == STMT_CASE)
+				{
+					const node expr = statement_case_get_expression(&substmt);
+					emit_expression(info, &expr);
 
-				case_values[case_num] = info->answer_const;
-				case_num++;
+					vector_add(&values, info->answer_const);
+					vector_add(&labels, (item_t)info->label_num++);
+					substmt = statement_case_get_substmt(&substmt);
+				}
+				else
+				{
+					label_default = info->label_num++;
+					substmt = statement_default_get_substmt(&substmt);
+				}
 			}
-			else if (statement_get_class(&substmt) == STMT_DEFAULT)
-			{
-				has_default = 1;
-			}	
 		}
 	}
 
+	// Метка конца следует за метками вариантов: последний из них передаёт управление на неё
+	const size_t label_end = info->label_num++;
+
 	uni_printf(info->sx->io, " switch ");
 	type_to_io(info, expression_get_type(&condition));
-	uni_printf(info->sx->io, " %%.%zu, label %%label%zu [\n", info->answer_reg, info->label_switch - case_num - has_default);
-	for (size_t i = 0; i < case_num; i++)
+	uni_printf(info->sx->io, " %%.%zu, label %%label%zu [\n", condition_reg
+		, label_default != SIZE_MAX ? label_default : label_end);
+	for (size_t i = 0; i < vector_size(&values); i++)
 	{
 		uni_printf(info->sx->io, "  ");
 		type_to_io(info, expression_get_type(&condition));
-		uni_printf(info->sx->io, " %" PRIitem ", label %%label%zu\n", case_values[i], info->label_switch - i);
+		uni_printf(info->sx->io, " %" PRIitem ", label %%label%zu\n", vector_get(&values, i), (size_t)vector_get(&labels, i));
 	}
 	uni_printf(info->sx->io, " ]\n");
+	vector_clear(&values);
+	vector_clear(&labels);
 
-	info->label_break = info->label_switch - case_num - has_default;
+	info->label_switch = label_first;
+	info->label_break = label_end;
 	if (statement_get_class(&body) == STMT_COMPOUND)
 	{
 		emit_compound_statement(info, &body, true);
 	}
-	to_code_label(info, info->label_break);
+	to_code_unconditional_branch(info, label_end);
+	to_code_label(info, label_end);
+
+	info->label_switch = old_label_switch;
+	info->label_break = old_label_break;
 }
 
 /**
-- 
2.43.0


From 18a709bd299f96211e04466870540186975b241c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:24 +0000
Subject: [PATCH 090/104] fix: increments and compound assignments of elements
 in LLVM code

---
 libs/compiler/llvmgen.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 9d6eef0..6c21363 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -1291,7 +1291,8 @@ static void emit_inc_dec_expression(information *const info, const node *const n
 		id = (size_t)info->answer_reg;
 	}
 
-	to_code_load(info, info->register_num, id, operation_type, is_complex, ident_is_local(info->sx, id));
+	const bool is_local = is_complex || ident_is_local(info->sx, id);
+	to_code_load(info, info->register_num, id, operation_type, is_complex, is_local);
 	info->answer_kind = AREG;
 	info->answer_reg = info->register_num++;
 
@@ -1319,7 +1320,7 @@ static void emit_inc_dec_expression(information *const info, const node *const n
 			break;
 	}
 
-	to_code_store_reg(info, info->register_num, id, operation_type, is_complex, false, ident_is_local(info->sx, id));
+	to_code_store_reg(info, info->register_num, id, operation_type, is_complex, false, is_local);
 	info->register_num++;
 }
 
@@ -1361,7 +1362,7 @@ static void emit_unary_expression(information *const info, const node *const nd)
 			}
 			else if (operator == UN_MINUS && type_is_floating(info->sx, operation_type))
 			{
-				to_code_operation_const_reg_double(info, BIN_SUB, 0, info->answer_reg);
+				to_code_operation_const_reg_double(info, BIN_SUB, -0.0, info->answer_reg);
 			}
 
 			info->answer_kind = AREG;
@@ -1647,7 +1648,7 @@ static void emit_assignment_expression(information *const info, const node *cons
 
 	if (assignment_type != BIN_ASSIGN)
 	{
-		to_code_load(info, info->register_num, id, operation_type, is_complex, ident_is_local(info->sx, id));
+		to_code_load(info, info->register_num, id, operation_type, is_complex, is_complex || ident_is_local(info->sx, id));
 		info->register_num++;
 
 		if (info->answer_kind == AREG)
-- 
2.43.0


From 763e84f5fa8d1a95978b066c39254288d896d27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:39 +0000
Subject: [PATCH 091/104] fix: logical and ternary expressions as values in
 LLVM code

---
 libs/compiler/llvmgen.c | 250 +++++++++++++++++++---------------------
 1 file changed, 119 insertions(+), 131 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 6c21363..1300461 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -73,8 +73,7 @@ typedef struct information
 	size_t label_false;						/**< Метка перехода при false */
 	size_t label_break;						/**< Метка перехода для break */
 	size_t label_continue;					/**< Метка перехода для continue */
-	size_t label_ternary_end;				/**< Метка перехода в конец тернарного выражения */
-	size_t label_phi_previous;				/**< Метка перехода последнего использования phi */
+	size_t label_current;					/**< Метка текущего блока */
 	size_t label_switch;					/**< Метка для switch */
 
 	hash arrays;							/**< Хеш таблица с информацией о массивах:
@@ -478,6 +477,7 @@ static void to_code_store_null(information *const info, const size_t id, const i
 static inline void to_code_label(information *const info, const size_t label_num)
 {
 	uni_printf(info->sx->io, " label%zu:\n", label_num);
+	info->label_current = label_num;
 }
 
 static inline void to_code_unconditional_branch(information *const info, const size_t label_num)
@@ -679,7 +679,7 @@ static void check_type_and_branch(information *const info, const item_t type)
 		{
 			if (type_is_integer(info->sx, type))
 			{
-				to_code_operation_reg_const_integer(info, BIN_NE, info->answer_reg, 0, TYPE_INTEGER);
+				to_code_operation_reg_const_integer(info, BIN_NE, info->answer_reg, 0, type);
 			}
 			else if (type_is_boolean(info->sx, type))
 			{
@@ -694,23 +694,54 @@ static void check_type_and_branch(information *const info, const item_t type)
 				to_code_operation_reg_null(info, BIN_NE, info->answer_reg, type);
 			}
 			info->answer_reg = info->register_num++;
+			to_code_conditional_branch(info);
 		}
-		case ALOGIC:
-			if (info->variable_location == LNOLOG)
-			{
-				to_code_unconditional_branch(info, info->label_false);
-			}
-			else
-			{
-				to_code_conditional_branch(info);
-			}
-			break;
+		break;
 		default:
 			break;
 	}
 }
 
 
+static void to_code_boolean(information *const info, const item_t type)
+{
+	if (info->answer_kind == AREG)
+	{
+		if (type_is_boolean(info->sx, type))
+		{
+			return;
+		}
+
+		if (type_is_integer(info->sx, type))
+		{
+			to_code_operation_reg_const_integer(info, BIN_NE, info->answer_reg, 0, type);
+		}
+		else if (type_is_floating(info->sx, type))
+		{
+			to_code_operation_reg_const_double(info, BIN_NE, info->answer_reg, 0);
+		}
+		else
+		{
+			to_code_operation_reg_null(info, BIN_NE, info->answer_reg, type);
+		}
+	}
+	else
+	{
+		bool value = false;
+		if (info->answer_kind == ACONST)
+		{
+			value = type_is_boolean(info->sx, type) ? info->answer_const_bool
+				: type_is_floating(info->sx, type) ? info->answer_const_double != 0 : info->answer_const != 0;
+		}
+
+		uni_printf(info->sx->io, " %%.%zu = xor i1 false, %s\n", info->register_num, value ? "true" : "false");
+	}
+
+	info->answer_reg = info->register_num++;
+	info->answer_kind = AREG;
+}
+
+
 static void global_initialization(information *const info)
 {
 	const node root = node_get_root(&info->sx->tree);
@@ -1372,29 +1403,12 @@ static void emit_unary_expression(information *const info, const node *const nd)
 
 		case UN_LOGNOT:
 		{
-			const size_t temp = info->label_true;
-			info->label_true =  info->label_false;
-			info->label_false = temp;
-
+			info->variable_location = LFREE;
 			emit_expression(info, &operand);
+			to_code_boolean(info, expression_get_type(&operand));
 
-			if (info->answer_kind == AREG)
-			{
-				if (type_is_pointer(info->sx, expression_get_type(&operand)))
-				{
-					to_code_operation_reg_null(info, BIN_NE, info->answer_reg, expression_get_type(&operand));
-				}
-				else
-				{
-					if (type_is_integer(info->sx, expression_get_type(&operand)))
-					{
-						check_type_and_branch(info, expression_get_type(&operand));
-					}
-					to_code_operation_reg_const_bool(info, BIN_XOR, info->answer_reg, true, TYPE_BOOLEAN);
-				}
-				info->answer_reg = info->register_num++;
-			}
-
+			to_code_operation_reg_const_bool(info, BIN_XOR, info->answer_reg, true, TYPE_BOOLEAN);
+			info->answer_reg = info->register_num++;
 			return;
 		}
 
@@ -1728,91 +1742,39 @@ static void emit_binary_expression(information *const info, const node *const nd
 		case BIN_EQ:
 		case BIN_NE:
 			emit_integral_expression(info, nd, ALOGIC);
+			info->answer_kind = AREG;
 			return;
 
-		// TODO: протестировать и при необходимости реализовать случай, когда && и || есть в арифметических выражениях
 		case BIN_LOG_OR:
 		case BIN_LOG_AND:
 		{
-			const bool is_logic = info->variable_location != LNOLOG;
-			if (!is_logic)
-			{
-				info->label_true = info->label_num++;
-				info->label_false = info->label_num++;
-			}
-
 			const size_t label_next = info->label_num++;
-			const size_t old_label_true = info->label_true;
-			const size_t old_label_false = info->label_false;
-
-			if (operator == BIN_LOG_OR)
-			{
-				info->label_false = label_next;
-
-				if (!is_logic)
-				{
-					info->label_true = old_label_false;
-				}
-			}
-			else // (operator == OP_LOG_AND)
-			{
-				info->label_true = label_next;
-			}
+			const size_t label_end = info->label_num++;
+			const bool is_or = operator == BIN_LOG_OR;
 
 			const node LHS = expression_binary_get_LHS(nd);
-			info->variable_location = is_logic ? LFREE : LNOLOG;
-			emit_expression(info, &LHS);
-
-			if (!is_logic)
-			{
-				info->label_true = old_label_true;
-				info->label_false = old_label_false;
-
-				if (operator == BIN_LOG_OR)
-				{
-					info->label_false = label_next;
-
-					if (!is_logic)
-					{
-						info->label_true = old_label_false;
-					}
-				}
-				else // (operator == OP_LOG_AND)
-				{
-					info->label_true = label_next;
-				}
-			}
-
 			info->variable_location = LFREE;
-			check_type_and_branch(info, expression_get_type(&LHS));
+			emit_expression(info, &LHS);
+			to_code_boolean(info, expression_get_type(&LHS));
 
+			const size_t label_left = info->label_current;
+			uni_printf(info->sx->io, " br i1 %%.%zu, label %%label%zu, label %%label%zu\n", info->answer_reg
+				, is_or ? label_end : label_next, is_or ? label_next : label_end);
 			to_code_label(info, label_next);
-			info->label_true = old_label_true;
-			info->label_false = old_label_false;
 
 			const node RHS = expression_binary_get_RHS(nd);
-			info->variable_location = is_logic ? LFREE : LNOLOG;
+			info->variable_location = LFREE;
 			emit_expression(info, &RHS);
+			to_code_boolean(info, expression_get_type(&RHS));
 
-			info->variable_location = is_logic ? LFREE : LNOLOG;
-			check_type_and_branch(info, expression_get_type(&RHS));
-
-			if (!is_logic)
-			{
-				to_code_label(info, info->label_false);
-				uni_printf(info->sx->io, " %%.%zu = phi i1 [ %s, %%%s%zu ], [ %%.%zu, %%label%zu ]\n", info->register_num
-					, operator == BIN_LOG_OR ? "true" : "false", info->label_phi_previous == 0 ? "" : "label"
-					, info->label_phi_previous, info->register_num - 1, label_next);
+			const size_t label_right = info->label_current;
+			to_code_unconditional_branch(info, label_end);
+			to_code_label(info, label_end);
 
-				info->label_phi_previous = info->label_false;
-				info->answer_reg = info->register_num;
-				info->answer_kind = AREG;
-				info->register_num++;
-			}
-			else
-			{
-				info->answer_kind = ALOGIC;
-			}
+			uni_printf(info->sx->io, " %%.%zu = phi i1 [ %s, %%label%zu ], [ %%.%zu, %%label%zu ]\n", info->register_num
+				, is_or ? "true" : "false", label_left, info->answer_reg, label_right);
+			info->answer_reg = info->register_num++;
+			info->answer_kind = AREG;
 			return;
 		}
 
@@ -1832,6 +1794,31 @@ static void emit_binary_expression(information *const info, const node *const nd
 	}
 }
 
+static void answer_to_io(information *const info, const item_t type, const answer_t kind, const size_t reg
+	, const item_t value, const double value_double, const bool value_bool)
+{
+	if (kind == AREG)
+	{
+		uni_printf(info->sx->io, "%%.%zu", reg);
+	}
+	else if (kind == ANULL)
+	{
+		uni_printf(info->sx->io, "null");
+	}
+	else if (type_is_boolean(info->sx, type))
+	{
+		uni_printf(info->sx->io, "%s", value_bool ? "true" : "false");
+	}
+	else if (type_is_floating(info->sx, type))
+	{
+		double_to_io(info, value_double);
+	}
+	else
+	{
+		uni_printf(info->sx->io, "%" PRIitem, value);
+	}
+}
+
 /**
  *	Emit ternary expression
  *
@@ -1859,51 +1846,44 @@ static void emit_ternary_expression(information *const info, const node *const n
 
 	info->variable_location = LFREE;
 	const node LHS = expression_ternary_get_LHS(nd);
-	const bool then_is_ternary = expression_get_class(&LHS) == EXPR_TERNARY;
 	emit_expression(info, &LHS);
 
 	const answer_t then_answer = info->answer_kind;
-	const item_t then_reg = info->answer_reg;
+	const size_t then_reg = info->answer_reg;
 	const item_t then_const = info->answer_const;
-
-	if (then_is_ternary)
-	{
-		label_then = info->label_ternary_end;
-	}
+	const double then_const_double = info->answer_const_double;
+	const bool then_const_bool = info->answer_const_bool;
+	label_then = info->label_current;
 
 	to_code_unconditional_branch(info, label_end);
 	to_code_label(info, label_else);
 
 	info->variable_location = LFREE;
 	const node RHS = expression_ternary_get_RHS(nd);
-	const bool else_is_ternary = expression_get_class(&RHS) == EXPR_TERNARY;
 	emit_expression(info, &RHS);
-
-	const answer_t else_answer = info->answer_kind;
-	const item_t else_reg = info->answer_reg;
-	const item_t else_const = info->answer_const;
-
-	if (else_is_ternary)
-	{
-		label_else = info->label_ternary_end;
-	}
+	label_else = info->label_current;
 
 	to_code_unconditional_branch(info, label_end);
 	to_code_label(info, label_end);
 
-	uni_printf(info->sx->io, " %%.%zu = phi ", info->register_num);
-	type_to_io(info, expression_get_type(nd));
-	uni_printf(info->sx->io, " [ %s%" PRIitem ", %%label%zu ]", then_answer == AREG ? "%." : ""
-		, then_answer == AREG ? then_reg : then_const, label_then);
-	uni_printf(info->sx->io, ", [ %s%" PRIitem ", %%label%zu ]\n", else_answer == AREG ? "%." : ""
-		, else_answer == AREG ? else_reg : else_const, label_else);
+	const item_t type = expression_get_type(nd);
+	if (!type_is_void(type))
+	{
+		uni_printf(info->sx->io, " %%.%zu = phi ", info->register_num);
+		type_to_io(info, type);
+		uni_printf(info->sx->io, " [ ");
+		answer_to_io(info, type, then_answer, then_reg, then_const, then_const_double, then_const_bool);
+		uni_printf(info->sx->io, ", %%label%zu ], [ ", label_then);
+		answer_to_io(info, type, info->answer_kind, info->answer_reg, info->answer_const
+			, info->answer_const_double, info->answer_const_bool);
+		uni_printf(info->sx->io, ", %%label%zu ]\n", label_else);
 
-	info->answer_kind = AREG;
-	info->answer_reg = info->register_num++;
+		info->answer_kind = AREG;
+		info->answer_reg = info->register_num++;
+	}
 
 	info->label_true = old_label_true;
 	info->label_false = old_label_false;
-	info->label_ternary_end = label_end;
 }
 
 /**
@@ -2479,6 +2459,7 @@ static void emit_function_definition(information *const info, const node *const
 		type_to_io(info, param_type);
 	}
 	uni_printf(info->sx->io, ") {\n");
+	to_code_label(info, info->label_num++);
 
 	for (size_t i = 0; i < parameters; i++)
 	{
@@ -2832,8 +2813,12 @@ static void emit_return_statement(information *const info, const node *const nd)
 		const node expression = statement_return_get_expression(nd);
 		emit_expression(info, &expression);
 
-		// TODO: добавить обработку других ответов (ALOGIC)
 		const item_t answer_type = expression_get_type(&expression);
+		if (type_is_boolean(info->sx, answer_type))
+		{
+			to_code_boolean(info, answer_type);
+		}
+
 		if (info->answer_kind == ACONST && type_is_integer(info->sx, answer_type))
 		{
 			uni_printf(info->sx->io, " ret i32 %" PRIitem "\n", info->answer_const);
@@ -3047,14 +3032,17 @@ static void emit_statement(information *const info, const node *const nd)
 
 		case STMT_CONTINUE:
 			to_code_unconditional_branch(info, info->label_continue);
+			to_code_label(info, info->label_num++);
 			return;
 
 		case STMT_BREAK:
 			to_code_unconditional_branch(info, info->label_break);
+			to_code_label(info, info->label_num++);
 			return;
 
 		case STMT_RETURN:
 			emit_return_statement(info, nd);
+			to_code_label(info, info->label_num++);
 			return;
 
 		// Printid и Getid, которые будут сделаны парсере
@@ -3320,7 +3308,7 @@ int encode_to_llvm(const workspace *const ws, syntax *const sx)
 	info.was_fabs = false;
 	info.is_main = false;
 	info.is_call = false;
-	info.label_phi_previous = 0;
+	info.label_current = 0;
 	for (size_t i = 0; i < BEGIN_USER_FUNC; i++)
 	{
 		info.was_function[i] = false;
-- 
2.43.0


From 8c0b2e28feb641461c90aa1e3f1bb2751d6632c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:12 +0000
Subject: [PATCH 092/104] fix: constants, characters, booleans and addresses of
 every type in LLVM code

---
 libs/compiler/llvmgen.c | 556 +++++++++++++++-------------------------
 1 file changed, 211 insertions(+), 345 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 1300461..77fa05c 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -91,6 +91,7 @@ typedef struct information
 	bool is_call;							/**< Истина, если обрабатывается вызов функции */
 
 	size_t func_ref;						/**< id функции */
+	item_t return_type;						/**< Тип возвращаемого значения */
 } information;
 
 
@@ -261,22 +262,22 @@ static void operation_to_io(information *const info, const binary_t operation_ty
 	{
 		case BIN_ADD_ASSIGN:
 		case BIN_ADD:
-			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "add nsw" : "fadd");
+			uni_printf(info->sx->io, type_is_floating(info->sx, type) ? "fadd" : "add nsw");
 			break;
 
 		case BIN_SUB_ASSIGN:
 		case BIN_SUB:
-			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "sub nsw" : "fsub");
+			uni_printf(info->sx->io, type_is_floating(info->sx, type) ? "fsub" : "sub nsw");
 			break;
 
 		case BIN_MUL_ASSIGN:
 		case BIN_MUL:
-			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "mul nsw" : "fmul");
+			uni_printf(info->sx->io, type_is_floating(info->sx, type) ? "fmul" : "mul nsw");
 			break;
 
 		case BIN_DIV_ASSIGN:
 		case BIN_DIV:
-			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "sdiv" : "fdiv");
+			uni_printf(info->sx->io, type_is_floating(info->sx, type) ? "fdiv" : "sdiv");
 			break;
 
 		case BIN_REM_ASSIGN:
@@ -310,36 +311,55 @@ static void operation_to_io(information *const info, const binary_t operation_ty
 			break;
 
 		case BIN_EQ:
-			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "icmp eq" : "fcmp oeq");
+			uni_printf(info->sx->io, type_is_floating(info->sx, type) ? "fcmp oeq" : "icmp eq");
 			break;
 		case BIN_NE:
-			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "icmp ne" : "fcmp one");
+			uni_printf(info->sx->io, type_is_floating(info->sx, type) ? "fcmp une" : "icmp ne");
 			break;
 		case BIN_LT:
-			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "icmp slt" : "fcmp olt");
+			uni_printf(info->sx->io, type_is_floating(info->sx, type) ? "fcmp olt" : "icmp slt");
 			break;
 		case BIN_GT:
-			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "icmp sgt" : "fcmp ogt");
+			uni_printf(info->sx->io, type_is_floating(info->sx, type) ? "fcmp ogt" : "icmp sgt");
 			break;
 		case BIN_LE:
-			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "icmp sle" : "fcmp ole");
+			uni_printf(info->sx->io, type_is_floating(info->sx, type) ? "fcmp ole" : "icmp sle");
 			break;
 		case BIN_GE:
-			uni_printf(info->sx->io, type_is_integer(info->sx, type) ? "icmp sge" : "fcmp oge");
+			uni_printf(info->sx->io, type_is_floating(info->sx, type) ? "fcmp oge" : "icmp sge");
 			break;
 		default:
 			break;
 	}
 }
 
-static void to_code_operation_reg_reg(information *const info, const binary_t operation
-	, const size_t fst, const size_t snd, const item_t type)
+static void answer_to_io(information *const info, const item_t type, const answer_t kind, const size_t reg
+	, const item_t value, const double value_double, const bool value_bool)
 {
-	uni_printf(info->sx->io, " %%.%zu = ", info->register_num);
-	operation_to_io(info, operation, type);
-	uni_printf(info->sx->io, " ");
-	type_to_io(info, type);
-	uni_printf(info->sx->io, " %%.%zu, %%.%zu\n", fst, snd);
+	if (kind == AREG)
+	{
+		uni_printf(info->sx->io, "%%.%zu", reg);
+	}
+	else if (kind == AMEM)
+	{
+		uni_printf(info->sx->io, "%svar.%zu", ident_is_local(info->sx, reg) ? "%" : "@", reg);
+	}
+	else if (kind == ANULL)
+	{
+		uni_printf(info->sx->io, "null");
+	}
+	else if (type_is_boolean(info->sx, type))
+	{
+		uni_printf(info->sx->io, "%s", value_bool ? "true" : "false");
+	}
+	else if (type_is_floating(info->sx, type))
+	{
+		double_to_io(info, value_double);
+	}
+	else
+	{
+		uni_printf(info->sx->io, "%" PRIitem, value);
+	}
 }
 
 static void to_code_operation_reg_const_integer(information *const info, const binary_t operation
@@ -402,16 +422,6 @@ static void to_code_operation_reg_null(information *const info, const binary_t o
 	uni_printf(info->sx->io, " %%.%zu, null\n", fst);
 }
 
-static void to_code_operation_null_reg(information *const info, const binary_t operation
-	, const size_t snd, const item_t type)
-{
-	uni_printf(info->sx->io, " %%.%zu = ", info->register_num);
-	operation_to_io(info, operation, TYPE_INTEGER);
-	uni_printf(info->sx->io, " ");
-	type_to_io(info, type);
-	uni_printf(info->sx->io, " null, %%.%zu\n", snd);
-}
-
 static void to_code_load(information *const info, const size_t result, const size_t id, const item_t type
 	, const bool is_array, const bool is_local)
 {
@@ -465,15 +475,6 @@ static inline void to_code_store_const_double(information *const info, const dou
 		, is_local ? "%" : "@", is_array ? "" : "var", id);
 }
 
-static void to_code_store_null(information *const info, const size_t id, const item_t type)
-{
-	uni_printf(info->sx->io, " store ");
-	type_to_io(info, type);
-	uni_printf(info->sx->io, " null, ");
-	type_to_io(info, type);
-	uni_printf(info->sx->io, "* %%var.%zu, align 4\n", id);
-}
-
 static inline void to_code_label(information *const info, const size_t label_num)
 {
 	uni_printf(info->sx->io, " label%zu:\n", label_num);
@@ -703,6 +704,47 @@ static void check_type_and_branch(information *const info, const item_t type)
 }
 
 
+/** Расширить символ в регистре с ответом до целого числа */
+static void to_code_extend(information *const info, const item_t type)
+{
+	if (type_get_class(info->sx, type) == TYPE_CHARACTER && info->answer_kind == AREG)
+	{
+		to_code_char_to_int(info, info->answer_reg);
+		info->answer_reg = info->register_num - 1;
+	}
+}
+
+/** Привести целочисленный ответ к типу, в котором он будет храниться */
+static void to_code_convert(information *const info, const item_t target, const item_t source)
+{
+	if (type_get_class(info->sx, target) == TYPE_CHARACTER)
+	{
+		if (info->answer_kind == AREG && type_is_integer(info->sx, source)
+			&& type_get_class(info->sx, source) != TYPE_CHARACTER)
+		{
+			to_code_int_to_char(info, info->answer_reg);
+			info->answer_reg = info->register_num - 1;
+		}
+	}
+	else if (type_is_integer(info->sx, target))
+	{
+		to_code_extend(info, source);
+	}
+}
+
+static void to_code_store_answer(information *const info, const item_t type, const size_t id
+	, const bool is_array, const bool is_local)
+{
+	uni_printf(info->sx->io, " store ");
+	type_to_io(info, type);
+	uni_printf(info->sx->io, " ");
+	answer_to_io(info, type, info->answer_kind, info->answer_reg, info->answer_const
+		, info->answer_const_double, info->answer_const_bool);
+	uni_printf(info->sx->io, ", ");
+	type_to_io(info, type);
+	uni_printf(info->sx->io, "* %s%s.%zu, align 4\n", is_local ? "%" : "@", is_array ? "" : "var", id);
+}
+
 static void to_code_boolean(information *const info, const item_t type)
 {
 	if (info->answer_kind == AREG)
@@ -790,6 +832,16 @@ static void emit_cast_expression(information *const info, const node *const nd)
 
 	const node expression_to_cast = expression_cast_get_operand(nd);
 	emit_expression(info, &expression_to_cast);
+	if (type_is_floating(info->sx, source_type) || !type_is_floating(info->sx, target_type))
+	{
+		return;
+	}
+
+	if (info->answer_kind == ACONST)
+	{
+		info->answer_const_double = (double)info->answer_const;
+		return;
+	}
 
 	uni_printf(info->sx->io, " %%.%zu = sitofp ", info->register_num);
 	type_to_io(info, source_type);
@@ -1043,7 +1095,8 @@ static void emit_subscript_expression(information *const info, const node *const
  */
 static void emit_call_expression(information *const info, const node *const nd)
 {
-	item_t arguments[MAX_FUNCTION_ARGS];
+	size_t arguments[MAX_FUNCTION_ARGS];
+	item_t arguments_const[MAX_FUNCTION_ARGS];
 	double arguments_double[MAX_FUNCTION_ARGS];
 	bool arguments_bool[MAX_FUNCTION_ARGS];
 	answer_t arguments_type[MAX_FUNCTION_ARGS];
@@ -1067,6 +1120,8 @@ static void emit_call_expression(information *const info, const node *const nd)
 		info->was_function[func_ref] = true;
 	}
 
+	const item_t callee_type = expression_get_type(&callee);
+	const size_t parameter_amount = type_function_get_parameter_amount(info->sx, callee_type);
 	size_t func_reg = 0;
 	if (!ident_is_local(info->sx, func_ref))
 	{
@@ -1083,28 +1138,30 @@ static void emit_call_expression(information *const info, const node *const nd)
 		{
 			emit_expression(info, &argument);
 		}
-		// TODO: сделать параметры других типов (логическое)
-		arguments_type[i] = info->answer_kind;
-
-		if (info->answer_kind == AREG || info->answer_kind == ALOGIC)
-		{
-			arguments[i] = info->answer_reg;
-		}
-		else if (info->answer_kind == ASTR)
-		{
-			arguments[i] = (item_t)info->answer_string;
-		}
-		else if (type_is_integer(info->sx, arguments_value_type[i])) // ACONST
+		else
 		{
-			arguments[i] = info->answer_const;
+			info->answer_kind = ANULL;
 		}
-		else if (type_is_boolean(info->sx, arguments_value_type[i]))
+
+		// Символы передаются через переменное число аргументов как целые числа
+		const item_t parameter_type = i < parameter_amount
+			? type_function_get_parameter_type(info->sx, callee_type, i) : TYPE_VARARG;
+		const item_t target_type = type_is_integer(info->sx, parameter_type) ? parameter_type : TYPE_INTEGER;
+		if (info->answer_kind != ASTR && type_is_integer(info->sx, arguments_value_type[i]))
 		{
-			arguments_bool[i] = info->answer_const_bool;
+			to_code_convert(info, target_type, arguments_value_type[i]);
+			arguments_value_type[i] = target_type;
 		}
-		else // double
+
+		arguments_type[i] = info->answer_kind;
+		arguments[i] = info->answer_kind == ASTR ? info->answer_string : info->answer_reg;
+		arguments_const[i] = info->answer_const;
+		arguments_bool[i] = info->answer_const_bool;
+		arguments_double[i] = info->answer_const_double;
+
+		if (type_get_class(info->sx, arguments_value_type[i]) == TYPE_NULL_POINTER)
 		{
-			arguments_double[i] = info->answer_const_double;
+			arguments_value_type[i] = parameter_type;
 		}
 	}
 
@@ -1147,7 +1204,7 @@ static void emit_call_expression(information *const info, const node *const nd)
 
 		if (arguments_type[i] == ASTR)
 		{
-			const size_t index = (size_t)arguments[i];
+			const size_t index = arguments[i];
 			const size_t string_length = strings_length(info->sx, index);
 
 			uni_printf(info->sx->io, "i8* getelementptr inbounds "
@@ -1187,33 +1244,11 @@ static void emit_call_expression(information *const info, const node *const nd)
 			uni_printf(info->sx->io, " @");
 			func_name_to_io(info, id);
 		}
-		else if (arguments_type[i] == AREG || arguments_type[i] == ALOGIC)
-		{
-			uni_printf(info->sx->io, " %%.%" PRIitem, arguments[i]);
-		}
-		else if (arguments_type[i] == ASTR)
-		{
-			const size_t index = (size_t)arguments[i];
-			const size_t string_length = strings_length(info->sx, index);
-
-			uni_printf(info->sx->io, "i8* getelementptr inbounds "
-				"([%zu x i8], [%zu x i8]* @.str%zu, i32 0, i32 0)"
-				, string_length + 1
-				, string_length + 1
-				, index);
-		}
-		else if (type_is_integer(info->sx, arguments_value_type[i])) // ACONST
-		{
-			uni_printf(info->sx->io, " %" PRIitem, arguments[i]);
-		}
-		else if (type_is_boolean(info->sx, arguments_value_type[i]))
-		{
-			uni_printf(info->sx->io, " %s", arguments_bool[i] ? "true" : "false");
-		}
-		else // double
+		else
 		{
 			uni_printf(info->sx->io, " ");
-			double_to_io(info, arguments_double[i]);
+			answer_to_io(info, arguments_value_type[i], arguments_type[i], arguments[i], arguments_const[i]
+				, arguments_double[i], arguments_bool[i]);
 		}
 	}
 	uni_printf(info->sx->io, ")\n");
@@ -1382,6 +1417,7 @@ static void emit_unary_expression(information *const info, const node *const nd)
 
 			info->variable_location = LREG;
 			emit_expression(info, &operand);
+			to_code_convert(info, operation_type, expression_get_type(&operand));
 
 			if (operator == UN_MINUS && type_is_integer(info->sx, operation_type))
 			{
@@ -1521,13 +1557,12 @@ static void emit_unary_expression(information *const info, const node *const nd)
  *	@param	info	Encoder
  *	@param	nd		Node in AST
  */
-static void emit_integral_expression(information *const info, const node *const nd, const answer_t kind)
+static void emit_integral_expression(information *const info, const node *const nd)
 {
 	const binary_t operation = expression_binary_get_operator(nd);
 
 	info->variable_location = LFREE;
 	const node LHS = expression_binary_get_LHS(nd);
-	item_t operation_type = expression_get_type(&LHS);
 	emit_expression(info, &LHS);
 
 	// TODO: спрятать эти переменные в одну структуру и возвращать ее из emit_expr
@@ -1535,72 +1570,49 @@ static void emit_integral_expression(information *const info, const node *const
 	size_t left_reg = info->answer_reg;
 	const item_t left_const = info->answer_const;
 	const double left_const_double = info->answer_const_double;
+	const bool left_const_bool = info->answer_const_bool;
 
 	info->variable_location = LFREE;
 	const node RHS = expression_binary_get_RHS(nd);
 	emit_expression(info, &RHS);
 
-	const answer_t right_kind = info->answer_kind;
-	size_t right_reg = info->answer_reg;
-	const item_t right_const = info->answer_const;
-	const double right_const_double = info->answer_const_double;
-
-	if (type_get_class(info->sx, expression_get_type(&LHS)) == TYPE_CHARACTER 
-		&& type_get_class(info->sx, expression_get_type(&RHS)) == TYPE_INTEGER && left_kind != ACONST)
-	{
-		to_code_char_to_int(info, left_reg);
-		left_reg = info->register_num - 1;
-		operation_type = TYPE_INTEGER;
-	}
-	if (type_get_class(info->sx, expression_get_type(&LHS)) == TYPE_INTEGER 
-		&& type_get_class(info->sx, expression_get_type(&RHS)) == TYPE_CHARACTER && right_kind != ACONST)
+	item_t operation_type = expression_get_type(&LHS);
+	const item_t right_type = expression_get_type(&RHS);
+	if (type_get_class(info->sx, operation_type) == TYPE_NULL_POINTER)
 	{
-		to_code_char_to_int(info, right_reg);
-		right_reg = info->register_num - 1;
-		operation_type = TYPE_INTEGER;
+		operation_type = right_type;
 	}
 
-	if (left_kind == AREG && right_kind == AREG)
-	{
-		to_code_operation_reg_reg(info, operation, left_reg, right_reg, operation_type);
-	}
-	else if (left_kind == AREG && right_kind == ACONST && type_is_integer(info->sx, operation_type))
+	// Символы участвуют в операциях как целые числа
+	if (type_is_integer(info->sx, operation_type))
 	{
-		to_code_operation_reg_const_integer(info, operation, left_reg, right_const, operation_type);
-	}
-	else if (left_kind == AREG && right_kind == ACONST) // double
-	{
-		to_code_operation_reg_const_double(info, operation, left_reg, right_const_double);
-	}
-	else if (left_kind == ACONST && right_kind == AREG && type_is_integer(info->sx, operation_type))
-	{
-		to_code_operation_const_reg_integer(info, operation, left_const, right_reg, operation_type);
-	}
-	else if (left_kind == ACONST && right_kind == AREG) // double
-	{
-		to_code_operation_const_reg_double(info, operation, left_const_double, right_reg);
-	}
-	else if (left_kind == AREG && right_kind == ANULL)
-	{
-		to_code_operation_reg_null(info, operation, left_reg, operation_type);
-	}
-	else if (left_kind == ANULL && right_kind == AREG)
-	{
-		to_code_operation_null_reg(info, operation, right_reg, operation_type);
-	}
+		to_code_extend(info, right_type);
 
-	if (operation_type == TYPE_CHARACTER && kind == AREG)
-	{
-		info->register_num++;
-		to_code_char_to_int(info, info->register_num - 1);
-		info->answer_reg = info->register_num - 1;
-		info->answer_kind = kind;
+		const answer_t right_kind = info->answer_kind;
+		const size_t right_reg = info->answer_reg;
+		info->answer_kind = left_kind;
+		info->answer_reg = left_reg;
+		to_code_extend(info, operation_type);
+		left_reg = info->answer_reg;
 
-		return;
+		info->answer_kind = right_kind;
+		info->answer_reg = right_reg;
+		operation_type = TYPE_INTEGER;
 	}
 
+	uni_printf(info->sx->io, " %%.%zu = ", info->register_num);
+	operation_to_io(info, operation, operation_type);
+	uni_printf(info->sx->io, " ");
+	type_to_io(info, operation_type);
+	uni_printf(info->sx->io, " ");
+	answer_to_io(info, operation_type, left_kind, left_reg, left_const, left_const_double, left_const_bool);
+	uni_printf(info->sx->io, ", ");
+	answer_to_io(info, operation_type, info->answer_kind, info->answer_reg, info->answer_const
+		, info->answer_const_double, info->answer_const_bool);
+	uni_printf(info->sx->io, "\n");
+
 	info->answer_reg = info->register_num++;
-	info->answer_kind = kind;
+	info->answer_kind = AREG;
 }
 
 /**
@@ -1612,7 +1624,6 @@ static void emit_integral_expression(information *const info, const node *const
 static void emit_assignment_expression(information *const info, const node *const nd)
 {
 	const binary_t assignment_type = expression_assignment_get_operator(nd);
-	item_t operation_type = expression_get_type(nd);
 
 	// TODO: вообще тут может быть и вырезка из структуры
 	const node LHS = expression_assignment_get_LHS(nd);
@@ -1633,7 +1644,7 @@ static void emit_assignment_expression(information *const info, const node *cons
 	const node RHS = expression_assignment_get_RHS(nd);
 	if (expression_get_class(&RHS) == EXPR_INITIALIZER)
 	{
-		info->request_reg = (size_t)operation_type;
+		info->request_reg = (size_t)expression_get_type(nd);
 	}
 	emit_expression(info, &RHS);
 
@@ -1642,72 +1653,39 @@ static void emit_assignment_expression(information *const info, const node *cons
 		return;
 	}
 
-	size_t result = info->answer_reg;
-
-	if (type_get_class(info->sx, expression_get_type(&LHS)) == TYPE_INTEGER 
-		&& type_get_class(info->sx, expression_get_type(&RHS)) == TYPE_CHARACTER && info->answer_kind != ACONST)
-	{
-		to_code_char_to_int(info, result);
-		result = info->register_num - 1;
-		operation_type = TYPE_INTEGER;
-	}
-
-	if (type_get_class(info->sx, expression_get_type(&LHS)) == TYPE_CHARACTER 
-		&& type_get_class(info->sx, expression_get_type(&RHS)) == TYPE_INTEGER && info->answer_kind != ACONST)
-	{
-		to_code_int_to_char(info, result);
-		result = info->register_num - 1;
-		operation_type = TYPE_CHARACTER;
-	}
+	const bool is_local = is_complex || ident_is_local(info->sx, id);
+	const item_t target_type = expression_get_type(&LHS);
+	const item_t value_type = expression_get_type(&RHS);
 
 	if (assignment_type != BIN_ASSIGN)
 	{
-		to_code_load(info, info->register_num, id, operation_type, is_complex, is_complex || ident_is_local(info->sx, id));
-		info->register_num++;
+		const item_t type = type_is_integer(info->sx, target_type) ? TYPE_INTEGER : target_type;
+		const answer_t kind = info->answer_kind;
+		to_code_convert(info, type, value_type);
+		const size_t reg = info->answer_reg;
 
-		if (info->answer_kind == AREG)
-		{
-			to_code_operation_reg_reg(info, assignment_type, info->register_num - 1, info->answer_reg, operation_type);
-		}
-		else if (type_is_integer(info->sx, operation_type)) // ACONST и операция =
-		{
-			to_code_operation_reg_const_integer(info, assignment_type, info->register_num - 1
-				, info->answer_const, operation_type);
-		}
-		else if (type_is_floating(info->sx, operation_type))
-		{
-			to_code_operation_reg_const_double(info, assignment_type, info->register_num - 1
-				, info->answer_const_double);
-		}
-
-		result = info->register_num++;
+		to_code_load(info, info->register_num, id, target_type, is_complex, is_local);
+		info->answer_reg = info->register_num++;
 		info->answer_kind = AREG;
-	}
+		to_code_convert(info, type, target_type);
 
-	if (info->answer_kind == AREG || info->answer_kind == AMEM || info->answer_kind == ALOGIC)
-	{
-		to_code_store_reg(info, result, id, operation_type, is_complex
-			, info->answer_kind == AMEM, !is_complex ? ident_is_local(info->sx, id) : true);
+		uni_printf(info->sx->io, " %%.%zu = ", info->register_num);
+		operation_to_io(info, assignment_type, type);
+		uni_printf(info->sx->io, " ");
+		type_to_io(info, type);
+		uni_printf(info->sx->io, " %%.%zu, ", info->answer_reg);
+		answer_to_io(info, type, kind, reg, info->answer_const, info->answer_const_double, info->answer_const_bool);
+		uni_printf(info->sx->io, "\n");
 
-		info->answer_kind = AREG;
-		info->answer_reg = result;
-	}
-	else if (info->answer_kind == ANULL)
-	{
-		to_code_store_null(info, id, operation_type);
-	}
-	else if (type_is_integer(info->sx, operation_type)) // ACONST и операция =
-	{
-		to_code_store_const_integer(info, info->answer_const, id, is_complex, !is_complex ? ident_is_local(info->sx, id) : true, operation_type);
-	}
-	else if (type_is_floating(info->sx, operation_type))
-	{
-		to_code_store_const_double(info, info->answer_const_double, id, is_complex, !is_complex ? ident_is_local(info->sx, id) : true);
+		info->answer_reg = info->register_num++;
+		to_code_convert(info, target_type, type);
 	}
-	else if (type_is_boolean(info->sx, operation_type))
+	else
 	{
-		to_code_store_const_bool(info, info->answer_const_bool, id, is_complex, !is_complex ? ident_is_local(info->sx, id) : true);
+		to_code_convert(info, target_type, value_type);
 	}
+
+	to_code_store_answer(info, target_type, id, is_complex, is_local);
 }
 
 /**
@@ -1732,7 +1710,7 @@ static void emit_binary_expression(information *const info, const node *const nd
 		case BIN_AND:
 		case BIN_XOR:
 		case BIN_OR:
-			emit_integral_expression(info, nd, AREG);
+			emit_integral_expression(info, nd);
 			return;
 
 		case BIN_LT:
@@ -1741,8 +1719,7 @@ static void emit_binary_expression(information *const info, const node *const nd
 		case BIN_GE:
 		case BIN_EQ:
 		case BIN_NE:
-			emit_integral_expression(info, nd, ALOGIC);
-			info->answer_kind = AREG;
+			emit_integral_expression(info, nd);
 			return;
 
 		case BIN_LOG_OR:
@@ -1794,31 +1771,6 @@ static void emit_binary_expression(information *const info, const node *const nd
 	}
 }
 
-static void answer_to_io(information *const info, const item_t type, const answer_t kind, const size_t reg
-	, const item_t value, const double value_double, const bool value_bool)
-{
-	if (kind == AREG)
-	{
-		uni_printf(info->sx->io, "%%.%zu", reg);
-	}
-	else if (kind == ANULL)
-	{
-		uni_printf(info->sx->io, "null");
-	}
-	else if (type_is_boolean(info->sx, type))
-	{
-		uni_printf(info->sx->io, "%s", value_bool ? "true" : "false");
-	}
-	else if (type_is_floating(info->sx, type))
-	{
-		double_to_io(info, value_double);
-	}
-	else
-	{
-		uni_printf(info->sx->io, "%" PRIitem, value);
-	}
-}
-
 /**
  *	Emit ternary expression
  *
@@ -1845,8 +1797,10 @@ static void emit_ternary_expression(information *const info, const node *const n
 	to_code_label(info, label_then);
 
 	info->variable_location = LFREE;
+	const item_t type = expression_get_type(nd);
 	const node LHS = expression_ternary_get_LHS(nd);
 	emit_expression(info, &LHS);
+	to_code_convert(info, type, expression_get_type(&LHS));
 
 	const answer_t then_answer = info->answer_kind;
 	const size_t then_reg = info->answer_reg;
@@ -1861,12 +1815,12 @@ static void emit_ternary_expression(information *const info, const node *const n
 	info->variable_location = LFREE;
 	const node RHS = expression_ternary_get_RHS(nd);
 	emit_expression(info, &RHS);
+	to_code_convert(info, type, expression_get_type(&RHS));
 	label_else = info->label_current;
 
 	to_code_unconditional_branch(info, label_end);
 	to_code_label(info, label_end);
 
-	const item_t type = expression_get_type(nd);
 	if (!type_is_void(type))
 	{
 		uni_printf(info->sx->io, " %%.%zu = phi ", info->register_num);
@@ -2024,21 +1978,8 @@ static void emit_one_dimension_initialization(information *const info, const nod
 		if (cur_dimension == 0)
 		{
 			emit_expression(info, &initializer);
-
-			if (info->answer_kind == AREG)
-			{
-				to_code_store_reg(info, info->answer_reg, slice_reg, type, true, false, is_local);
-			}
-			// константа типа int
-			else if (type_is_integer(info->sx, type))
-			{
-				to_code_store_const_integer(info, info->answer_const, slice_reg, true, true, type);
-			}
-			// константа типа double
-			else
-			{
-				to_code_store_const_double(info, info->answer_const_double, slice_reg, true, true);
-			}
+			to_code_convert(info, type, expression_get_type(&initializer));
+			to_code_store_answer(info, type, slice_reg, true, true);
 		}
 		else
 		{
@@ -2125,7 +2066,7 @@ static void emit_initialization(information *const info, const node *const nd, c
 			for (size_t i = 0; i < N && N != SIZE_MAX; i++)
 			{
 				const node initializer = expression_initializer_get_subexpr(nd, i);
-				const item_t type = expression_get_type(&initializer);
+				const item_t type = type_structure_get_member_type(info->sx, arr_type, i);
 
 				const size_t member_reg = (size_t)info->register_num;
 				uni_printf(info->sx->io, " %%.%zu = getelementptr inbounds %%struct_opt.%" PRIitem
@@ -2133,22 +2074,10 @@ static void emit_initialization(information *const info, const node *const nd, c
 					, info->register_num, arr_type, arr_type, id, i);
 				info->register_num++;
 
+				info->variable_location = LFREE;
 				emit_expression(info, &initializer);
-
-				if (info->answer_kind == AREG)
-				{
-					to_code_store_reg(info, info->answer_reg, member_reg, type, true, false, true);
-				}
-				// константа типа int
-				else if (type_is_integer(info->sx, type))
-				{
-					to_code_store_const_integer(info, info->answer_const, member_reg, true, true, type);
-				}
-				// константа типа double
-				else
-				{
-					to_code_store_const_double(info, info->answer_const_double, member_reg, true, true);
-				}
+				to_code_convert(info, type, expression_get_type(&initializer));
+				to_code_store_answer(info, type, member_reg, true, true);
 			}
 		}
 		else
@@ -2158,26 +2087,16 @@ static void emit_initialization(information *const info, const node *const nd, c
 			for (size_t i = 0; i < N && N != SIZE_MAX; i++)
 			{
 				const node initializer = expression_initializer_get_subexpr(nd, i);
-				const item_t type = expression_get_type(&initializer);
+				const item_t type = type_structure_get_member_type(info->sx, arr_type, i);
 
+				info->variable_location = LFREE;
 				emit_expression(info, &initializer);
 
-				if (i != 0)
-				{
-					uni_printf(info->sx->io, ", ");
-				}
-
-				// константа типа int
-				if (type_is_integer(info->sx, type))
-				{
-					uni_printf(info->sx->io, "i32 %" PRIitem, info->answer_const);
-				}
-				// константа типа double
-				else
-				{
-					uni_printf(info->sx->io, "double ");
-					double_to_io(info, info->answer_const_double);
-				}
+				uni_printf(info->sx->io, i == 0 ? "" : ", ");
+				type_to_io(info, type);
+				uni_printf(info->sx->io, " ");
+				answer_to_io(info, type, info->answer_kind, info->answer_reg, info->answer_const
+					, info->answer_const_double, info->answer_const_bool);
 			}
 
 			uni_printf(info->sx->io, " }, align 4\n");
@@ -2236,48 +2155,9 @@ static void emit_variable_declaration(information *const info, const node *const
 			const node initializer = declaration_variable_get_initializer(nd);
 			emit_expression(info, &initializer);
 
-			if (type_get_class(info->sx, type) == TYPE_INTEGER 
-				&& type_get_class(info->sx, expression_get_type(&initializer)) == TYPE_CHARACTER)
-			{
-				to_code_char_to_int(info, info->answer_reg);
-				info->answer_reg = info->register_num - 1;
-			}
-
-			if (type_get_class(info->sx, type) == TYPE_CHARACTER 
-				&& type_get_class(info->sx, expression_get_type(&initializer)) == TYPE_INTEGER)
-			{
-				to_code_int_to_char(info, info->answer_reg);
-				info->answer_reg = info->register_num - 1;
-			}
-
-			if (info->answer_kind == ACONST)
-			{
-				if (type_is_integer(info->sx, type))
-				{
-					to_code_store_const_integer(info, info->answer_const, info->request_reg, false, is_local, type);
-				}
-				else if (type_is_boolean(info->sx, type))  
-				{
-					to_code_store_const_bool(info, info->answer_const_bool, info->request_reg, false, is_local);
-				}
-				else
-				{
-					to_code_store_const_double(info, info->answer_const_double, info->request_reg, false, is_local);
-				}
-			}
-			else if (info->answer_kind == AREG)
-			{
-				to_code_store_reg(info, info->answer_reg, id, type, false, false, is_local);
-			}
-			else if (info->answer_kind == AMEM) // указатель
-			{
-				to_code_store_reg(info, info->answer_reg, id, type, false, true, is_local);
-			}
-			else if (info->answer_kind == ANULL)
-			{
-				to_code_store_null(info, id, type);
-			}
+			to_code_convert(info, type, expression_get_type(&initializer));
 
+			to_code_store_answer(info, type, id, false, is_local);
 		}
 		else
 		{
@@ -2314,20 +2194,14 @@ static void emit_variable_declaration(information *const info, const node *const
 			const node initializer = declaration_variable_get_initializer(nd);
 			emit_expression(info, &initializer);
 
-			if (info->answer_kind == ACONST)
+			if (info->answer_kind == ACONST || info->answer_kind == ANULL)
 			{
 				uni_printf(info->sx->io, "global ");
 				type_to_io(info, type);
-				if (type_is_integer(info->sx, type))
-				{
-					uni_printf(info->sx->io, " %" PRIitem ", align 4\n", info->answer_const);
-				}
-				else
-				{
-					uni_printf(info->sx->io, " ");
-					double_to_io(info, info->answer_const_double);
-					uni_printf(info->sx->io, ", align 4\n");
-				}
+				uni_printf(info->sx->io, " ");
+				answer_to_io(info, type, info->answer_kind, info->answer_reg, info->answer_const
+					, info->answer_const_double, info->answer_const_bool);
+				uni_printf(info->sx->io, ", align 4\n");
 			}
 		}
 		else
@@ -2435,6 +2309,7 @@ static void emit_function_definition(information *const info, const node *const
 	const item_t ret_type = ref_ident != info->sx->ref_main ? type_function_get_return_type(info->sx, func_type) : TYPE_INTEGER;
 	const size_t parameters = type_function_get_parameter_amount(info->sx, func_type);
 	info->was_dynamic = false;
+	info->return_type = ret_type;
 
 	uni_printf(info->sx->io, "define ");
 	type_to_io(info, ret_type);
@@ -2813,28 +2688,18 @@ static void emit_return_statement(information *const info, const node *const nd)
 		const node expression = statement_return_get_expression(nd);
 		emit_expression(info, &expression);
 
-		const item_t answer_type = expression_get_type(&expression);
-		if (type_is_boolean(info->sx, answer_type))
-		{
-			to_code_boolean(info, answer_type);
-		}
+		const item_t source_type = expression_get_type(&expression);
+		const item_t return_type = type_is_integer(info->sx, source_type) ? info->return_type : source_type;
+		const item_t answer_type = type_get_class(info->sx, source_type) == TYPE_NULL_POINTER
+			? info->return_type : return_type;
+		to_code_convert(info, answer_type, source_type);
 
-		if (info->answer_kind == ACONST && type_is_integer(info->sx, answer_type))
-		{
-			uni_printf(info->sx->io, " ret i32 %" PRIitem "\n", info->answer_const);
-		}
-		else if (info->answer_kind == ACONST && type_is_floating(info->sx, answer_type))
-		{
-			uni_printf(info->sx->io, " ret double ");
-			double_to_io(info, info->answer_const_double);
-			uni_printf(info->sx->io, "\n");
-		}
-		else if (info->answer_kind == AREG)
-		{
-			uni_printf(info->sx->io, " ret ");
-			type_to_io(info, answer_type);
-			uni_printf(info->sx->io, " %%.%zu\n", info->answer_reg);
-		}
+		uni_printf(info->sx->io, " ret ");
+		type_to_io(info, answer_type);
+		uni_printf(info->sx->io, " ");
+		answer_to_io(info, answer_type, info->answer_kind, info->answer_reg, info->answer_const
+			, info->answer_const_double, info->answer_const_bool);
+		uni_printf(info->sx->io, "\n");
 	}
 	else
 	{
@@ -2889,10 +2754,11 @@ static void emit_switch_statement(information *const info, const node *const nd)
 	const node condition = statement_switch_get_condition(nd);
 	emit_expression(info, &condition);
 
+	to_code_extend(info, expression_get_type(&condition));
 	if (info->answer_kind == ACONST)
 	{
 		uni_printf(info->sx->io, " %%.%zu = add nsw ", info->register_num);
-		type_to_io(info, expression_get_type(&condition));
+		type_to_io(info, TYPE_INTEGER);
 		uni_printf(info->sx->io, " 0, %" PRIitem "\n", info->answer_const);
 		info->answer_reg = info->register_num++;
 	}
@@ -2935,13 +2801,13 @@ static void emit_switch_statement(information *const info, const node *const nd)
 	const size_t label_end = info->label_num++;
 
 	uni_printf(info->sx->io, " switch ");
-	type_to_io(info, expression_get_type(&condition));
+	type_to_io(info, TYPE_INTEGER);
 	uni_printf(info->sx->io, " %%.%zu, label %%label%zu [\n", condition_reg
 		, label_default != SIZE_MAX ? label_default : label_end);
 	for (size_t i = 0; i < vector_size(&values); i++)
 	{
 		uni_printf(info->sx->io, "  ");
-		type_to_io(info, expression_get_type(&condition));
+		type_to_io(info, TYPE_INTEGER);
 		uni_printf(info->sx->io, " %" PRIitem ", label %%label%zu\n", vector_get(&values, i), (size_t)vector_get(&labels, i));
 	}
 	uni_printf(info->sx->io, " ]\n");
-- 
2.43.0


From a5c5cf3b7631241ce4595dd16800dafaeed0bac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:26 +0000
Subject: [PATCH 093/104] fix: members, dereferences and bounds of expressions
 in LLVM code

---
 libs/compiler/llvmgen.c | 73 ++++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 31 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 77fa05c..48cf818 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -1279,12 +1279,14 @@ static void emit_member_expression(information *const info, const node *const nd
 	bool is_complex = false;
 	if (type_is_pointer(info->sx, type))
 	{
-		to_code_load(info, info->register_num++, id, type, false, ident_is_local(info->sx, id));
+		const location_t loc = info->variable_location;
+		info->variable_location = LFREE;
+		emit_expression(info, &base);
+		info->variable_location = loc;
 		type = type_pointer_get_element_type(info->sx, type);
 		is_complex = true;
 	}
-
-	if (expression_get_class(&base) == EXPR_SUBSCRIPT) // структура в массиве
+	else if (expression_get_class(&base) == EXPR_SUBSCRIPT) // структура в массиве
 	{
 		const location_t loc = info->variable_location;
 		info->variable_location = LMEM;
@@ -1293,7 +1295,7 @@ static void emit_member_expression(information *const info, const node *const nd
 		info->variable_location = loc;
 	}
 
-	if (expression_get_class(&base) == EXPR_MEMBER) // структура в структуре
+	else if (expression_get_class(&base) == EXPR_MEMBER) // структура в структуре
 	{
 		const location_t loc = info->variable_location;
 		info->variable_location = LMEM;
@@ -1302,7 +1304,7 @@ static void emit_member_expression(information *const info, const node *const nd
 		info->variable_location = loc;
 	}
 
-	if (expression_get_class(&base) == EXPR_CALL) // возврат структуры из функции
+	else if (expression_get_class(&base) == EXPR_CALL) // возврат структуры из функции
 	{
 		const location_t loc = info->variable_location;
 		info->variable_location = LMEM;
@@ -1319,7 +1321,7 @@ static void emit_member_expression(information *const info, const node *const nd
 
 	uni_printf(info->sx->io, " %%.%zu = getelementptr inbounds %%struct_opt.%" PRIitem ", " 
 		"%%struct_opt.%" PRIitem "* %s.%zu, i32 0, i32 %" PRIitem "\n", info->register_num, type, type
-		, is_complex ? "%" : (ident_is_local(info->sx, id) ? "%var" : "@var"), is_complex ? info->register_num - 1 : id, place);
+		, is_complex ? "%" : (ident_is_local(info->sx, id) ? "%var" : "@var"), is_complex ? info->answer_reg : id, place);
 
 	if (info->variable_location != LMEM)
 	{
@@ -1467,6 +1469,7 @@ static void emit_unary_expression(information *const info, const node *const nd)
 			{
 				info->variable_location = LMEM;
 				emit_expression(info, &operand);
+				info->answer_kind = AREG;
 			}
 			return;
 		}
@@ -1474,6 +1477,23 @@ static void emit_unary_expression(information *const info, const node *const nd)
 		case UN_INDIRECTION:
 		{
 			// FIXME: а если это нескалярный тип? (например, структура)
+			if (expression_get_class(&operand) != EXPR_IDENTIFIER)
+			{
+				const bool is_address = info->variable_location == LMEM;
+				info->variable_location = LFREE;
+				emit_expression(info, &operand);
+
+				if (!is_address)
+				{
+					const bool is_variable = info->answer_kind == AMEM;
+					to_code_load(info, info->register_num, info->answer_reg, expression_get_type(nd), !is_variable
+						, !is_variable || ident_is_local(info->sx, info->answer_reg));
+					info->answer_reg = info->register_num++;
+					info->answer_kind = AREG;
+				}
+				return;
+			}
+
 			info->variable_location = info->variable_location == LMEM ? LREG : LMEM;
 			emit_expression(info, &operand);
 			return;
@@ -1508,38 +1528,29 @@ static void emit_unary_expression(information *const info, const node *const nd)
 
 		case UN_UPB:
 		{
-			bool is_complex = node_get_type(&operand) != OP_IDENTIFIER;
-			if (!is_complex)
+			// Граница того измерения, до которого дошла вырезка
+			node array = operand;
+			size_t dimension = 1;
+			while (expression_get_class(&array) == EXPR_SUBSCRIPT)
 			{
-				const item_t id = expression_identifier_get_id(&operand);
-				const size_t dimensions = hash_get_amount(&info->arrays, id) - 1;
-				
-				if (hash_get(&info->arrays, id, IS_STATIC))
-				{
-					size_t upb = 1;
+				array = expression_subscript_get_base(&array);
+				dimension++;
+			}
 
-					for (size_t i = 1; i <= dimensions; i++)
-					{
-						upb *= (size_t)hash_get(&info->arrays, id, i);
-					}
+			if (node_get_type(&array) == OP_IDENTIFIER)
+			{
+				const item_t id = expression_identifier_get_id(&array);
+				const item_t bound = hash_get(&info->arrays, id, dimension);
+				info->answer_kind = AREG;
 
-					uni_printf(info->sx->io, " %%.%zu = add nsw i32 0, %zu\n", info->register_num, upb);
-					info->answer_kind = AREG;
+				if (hash_get(&info->arrays, id, IS_STATIC))
+				{
+					uni_printf(info->sx->io, " %%.%zu = add nsw i32 0, %" PRIitem "\n", info->register_num, bound);
 					info->answer_reg = info->register_num++;
 				}
 				else
 				{
-					size_t upb_reg = (size_t)hash_get(&info->arrays, id, 1);
-
-					for (size_t i = 2; i <= dimensions; i++)
-					{
-						uni_printf(info->sx->io, " %%.%zu = mul nsw i32 %%.%zu, %%.%zu\n"
-							, info->register_num, upb_reg, (size_t)hash_get(&info->arrays, id, i));
-						upb_reg = info->register_num++;
-					}
-
-					info->answer_kind = AREG;
-					info->answer_reg = upb_reg;
+					info->answer_reg = (size_t)bound;
 				}
 			}
 		}
-- 
2.43.0


From 126396b3e2bb9af627c074be8d822be726772c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:40 +0000
Subject: [PATCH 094/104] fix: nested structure initializers in LLVM code

---
 libs/compiler/llvmgen.c | 141 +++++++++++++++++++++++++---------------
 1 file changed, 87 insertions(+), 54 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 48cf818..a679dca 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -102,6 +102,7 @@ static void emit_declaration(information *const info, const node *const nd, cons
 static void emit_one_dimension_initialization(information *const info, const node *const nd, const item_t id
 	, const item_t arr_type, const size_t cur_dimension, const item_t prev_slice, const bool is_local);
 static void emit_initialization(information *const info, const node *const nd, const item_t id, const item_t arr_type);
+static void to_code_structure_address(information *const info, const size_t id, const item_t type, const bool is_local);
 
 
 static item_t array_get_type(information *const info, const item_t array_type)
@@ -1656,6 +1657,11 @@ static void emit_assignment_expression(information *const info, const node *cons
 	if (expression_get_class(&RHS) == EXPR_INITIALIZER)
 	{
 		info->request_reg = (size_t)expression_get_type(nd);
+		info->answer_reg = id;
+		if (!is_complex && type_is_structure(info->sx, expression_get_type(nd)))
+		{
+			to_code_structure_address(info, id, expression_get_type(nd), ident_is_local(info->sx, id));
+		}
 	}
 	emit_expression(info, &RHS);
 
@@ -1851,35 +1857,87 @@ static void emit_ternary_expression(information *const info, const node *const n
 	info->label_false = old_label_false;
 }
 
+static void to_code_structure_address(information *const info, const size_t id, const item_t type, const bool is_local)
+{
+	uni_printf(info->sx->io, " %%.%zu = getelementptr inbounds %%struct_opt.%" PRIitem ", %%struct_opt.%" PRIitem
+		"* %svar.%zu, i32 0\n", info->register_num, type, type, is_local ? "%" : "@", id);
+	info->answer_reg = info->register_num++;
+}
+
 /**
- *	Emit initializer expression
+ *	Emit initialization of structure
  *
  *	@param	info	Encoder
- *	@param	nd		Node in AST
+ *	@param	nd		Initializer in AST
+ *	@param	type	Type of structure
+ *	@param	reg		Register with address of structure
  */
-static void emit_initializer_expression(information *const info, const node *const nd)
+static void emit_structure_initialization(information *const info, const node *const nd, const item_t type, const size_t reg)
 {
-	if (type_is_structure(info->sx, expression_get_type(nd)))
+	const size_t size = expression_initializer_get_size(nd);
+	for (size_t i = 0; i < size; i++)
 	{
-		const size_t size = expression_initializer_get_size(nd);
-		const size_t structure_type = info->request_reg;
-		const size_t slice_reg = info->register_num - 1;
+		const node initializer = expression_initializer_get_subexpr(nd, i);
+		const item_t member_type = type_structure_get_member_type(info->sx, type, i);
 
-		for (size_t i = 0; i < size; i++)
+		const size_t member_reg = info->register_num++;
+		uni_printf(info->sx->io, " %%.%zu = getelementptr inbounds %%struct_opt.%" PRIitem ", %%struct_opt.%" PRIitem
+			"* %%.%zu, i32 0, i32 %zu\n", member_reg, type, type, reg, i);
+
+		if (expression_get_class(&initializer) == EXPR_INITIALIZER && type_is_structure(info->sx, member_type))
 		{
-			info->variable_location = LFREE;
-			const node initializer = expression_initializer_get_subexpr(nd, i);
-			emit_expression(info, &initializer);
+			emit_structure_initialization(info, &initializer, member_type, member_reg);
+			continue;
+		}
 
-			uni_printf(info->sx->io, " %%.%zu = getelementptr inbounds %%struct_opt.%zu, " 
-			"%%struct_opt.%zu* %%.%zu, i32 0, i32 %zu\n", info->register_num
-				, structure_type, structure_type, slice_reg, i);
+		info->variable_location = LFREE;
+		emit_expression(info, &initializer);
+		to_code_convert(info, member_type, expression_get_type(&initializer));
+		to_code_store_answer(info, member_type, member_reg, true, true);
+	}
+}
 
-			to_code_store_const_integer(info, info->answer_const, info->register_num, true, true
-				, expression_get_type(&initializer));
+static void emit_structure_constant(information *const info, const node *const nd, const item_t type)
+{
+	type_to_io(info, type);
+	uni_printf(info->sx->io, " { ");
 
-			info->register_num++;
+	const size_t size = expression_initializer_get_size(nd);
+	for (size_t i = 0; i < size; i++)
+	{
+		const node initializer = expression_initializer_get_subexpr(nd, i);
+		const item_t member_type = type_structure_get_member_type(info->sx, type, i);
+		uni_printf(info->sx->io, i == 0 ? "" : ", ");
+
+		if (expression_get_class(&initializer) == EXPR_INITIALIZER && type_is_structure(info->sx, member_type))
+		{
+			emit_structure_constant(info, &initializer, member_type);
+			continue;
 		}
+
+		info->variable_location = LFREE;
+		emit_expression(info, &initializer);
+
+		type_to_io(info, member_type);
+		uni_printf(info->sx->io, " ");
+		answer_to_io(info, member_type, info->answer_kind, info->answer_reg, info->answer_const
+			, info->answer_const_double, info->answer_const_bool);
+	}
+
+	uni_printf(info->sx->io, " }");
+}
+
+/**
+ *	Emit initializer expression
+ *
+ *	@param	info	Encoder
+ *	@param	nd		Node in AST
+ */
+static void emit_initializer_expression(information *const info, const node *const nd)
+{
+	if (type_is_structure(info->sx, expression_get_type(nd)))
+	{
+		emit_structure_initialization(info, nd, (item_t)info->request_reg, info->answer_reg);
 	}
 	// пока только для одномерных массивов
 	else if (type_is_array(info->sx, expression_get_type(nd)))
@@ -1988,6 +2046,12 @@ static void emit_one_dimension_initialization(information *const info, const nod
 		// последнее измерение
 		if (cur_dimension == 0)
 		{
+			if (expression_get_class(&initializer) == EXPR_INITIALIZER && type_is_structure(info->sx, type))
+			{
+				emit_structure_initialization(info, &initializer, type, slice_reg);
+				continue;
+			}
+
 			emit_expression(info, &initializer);
 			to_code_convert(info, type, expression_get_type(&initializer));
 			to_code_store_answer(info, type, slice_reg, true, true);
@@ -2070,50 +2134,19 @@ static void emit_initialization(information *const info, const node *const nd, c
 	}
 	else if (expression_get_class(nd) == EXPR_INITIALIZER && type_is_structure(info->sx, expression_get_type(nd)))
 	{
-		const size_t N = node_get_type(nd) == OP_INITIALIZER ? expression_initializer_get_size(nd) : SIZE_MAX;
-
 		if (ident_is_local(info->sx, (size_t)id))
 		{
-			for (size_t i = 0; i < N && N != SIZE_MAX; i++)
-			{
-				const node initializer = expression_initializer_get_subexpr(nd, i);
-				const item_t type = type_structure_get_member_type(info->sx, arr_type, i);
-
-				const size_t member_reg = (size_t)info->register_num;
-				uni_printf(info->sx->io, " %%.%zu = getelementptr inbounds %%struct_opt.%" PRIitem
-					", %%struct_opt.%" PRIitem "* %%var.%" PRIitem ", i32 0, i32 %zu\n"
-					, info->register_num, arr_type, arr_type, id, i);
-				info->register_num++;
-
-				info->variable_location = LFREE;
-				emit_expression(info, &initializer);
-				to_code_convert(info, type, expression_get_type(&initializer));
-				to_code_store_answer(info, type, member_reg, true, true);
-			}
+			to_code_structure_address(info, (size_t)id, arr_type, true);
+			emit_structure_initialization(info, nd, arr_type, info->answer_reg);
 		}
 		else
 		{
-			uni_printf(info->sx->io, "global %%struct_opt.%" PRIitem " { ", arr_type);
-
-			for (size_t i = 0; i < N && N != SIZE_MAX; i++)
-			{
-				const node initializer = expression_initializer_get_subexpr(nd, i);
-				const item_t type = type_structure_get_member_type(info->sx, arr_type, i);
-
-				info->variable_location = LFREE;
-				emit_expression(info, &initializer);
-
-				uni_printf(info->sx->io, i == 0 ? "" : ", ");
-				type_to_io(info, type);
-				uni_printf(info->sx->io, " ");
-				answer_to_io(info, type, info->answer_kind, info->answer_reg, info->answer_const
-					, info->answer_const_double, info->answer_const_bool);
-			}
-
-			uni_printf(info->sx->io, " }, align 4\n");
+			uni_printf(info->sx->io, "global ");
+			emit_structure_constant(info, nd, arr_type);
+			uni_printf(info->sx->io, ", align 4\n");
 		}
 	}
-	else if (expression_get_class(nd) == EXPR_CALL && type_is_structure(info->sx, expression_get_type(nd)))
+	else if (type_is_structure(info->sx, expression_get_type(nd)))
 	{
 		info->variable_location = LFREE;
 		emit_expression(info, nd);
-- 
2.43.0


From 9737fa785fce87703789f7dfc0323e91cf0624e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:54 +0000
Subject: [PATCH 095/104] fix: const objects and functions passed on in LLVM
 code

---
 libs/compiler/llvmgen.c | 57 +++++++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index a679dca..0a326af 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -105,12 +105,22 @@ static void emit_initialization(information *const info, const node *const nd, c
 static void to_code_structure_address(information *const info, const size_t id, const item_t type, const bool is_local);
 
 
+static item_t type_get_unqualified(information *const info, const item_t type)
+{
+	return type_is_const(info->sx, type) ? type_const_get_unqualified_type(info->sx, type) : type;
+}
+
+static bool type_is_character(information *const info, const item_t type)
+{
+	return type_get_class(info->sx, type_get_unqualified(info, type)) == TYPE_CHARACTER;
+}
+
 static item_t array_get_type(information *const info, const item_t array_type)
 {
-	item_t type = array_type;
+	item_t type = type_get_unqualified(info, array_type);
 	while (type_is_array(info->sx, type))
 	{
-		type = type_array_get_element_type(info->sx, type);
+		type = type_get_unqualified(info, type_array_get_element_type(info->sx, type));
 	}
 
 	return type;
@@ -119,10 +129,10 @@ static item_t array_get_type(information *const info, const item_t array_type)
 static size_t array_get_dim(information *const info, const item_t array_type)
 {
 	size_t i = 0;
-	item_t type = array_type;
+	item_t type = type_get_unqualified(info, array_type);
 	while (type_is_array(info->sx, type))
 	{
-		type = type_array_get_element_type(info->sx, type);
+		type = type_get_unqualified(info, type_array_get_element_type(info->sx, type));
 		i++;
 	}
 
@@ -181,6 +191,10 @@ static void type_to_io(information *const info, const item_t type)
 			uni_printf(info->sx->io, "void");
 			break;
 
+		case TYPE_CONST:
+			type_to_io(info, type_const_get_unqualified_type(info->sx, type));
+			break;
+
 		case TYPE_STRUCTURE:
 			uni_printf(info->sx->io, "%%struct_opt.%" PRIitem, type);
 			break;
@@ -708,7 +722,7 @@ static void check_type_and_branch(information *const info, const item_t type)
 /** Расширить символ в регистре с ответом до целого числа */
 static void to_code_extend(information *const info, const item_t type)
 {
-	if (type_get_class(info->sx, type) == TYPE_CHARACTER && info->answer_kind == AREG)
+	if (type_is_character(info, type) && info->answer_kind == AREG)
 	{
 		to_code_char_to_int(info, info->answer_reg);
 		info->answer_reg = info->register_num - 1;
@@ -718,10 +732,10 @@ static void to_code_extend(information *const info, const item_t type)
 /** Привести целочисленный ответ к типу, в котором он будет храниться */
 static void to_code_convert(information *const info, const item_t target, const item_t source)
 {
-	if (type_get_class(info->sx, target) == TYPE_CHARACTER)
+	if (type_is_character(info, target))
 	{
 		if (info->answer_kind == AREG && type_is_integer(info->sx, source)
-			&& type_get_class(info->sx, source) != TYPE_CHARACTER)
+			&& !type_is_character(info, source))
 		{
 			to_code_int_to_char(info, info->answer_reg);
 			info->answer_reg = info->register_num - 1;
@@ -1139,6 +1153,14 @@ static void emit_call_expression(information *const info, const node *const nd)
 		{
 			emit_expression(info, &argument);
 		}
+		else if (!ident_is_local(info->sx, expression_identifier_get_id(&argument)))
+		{
+			// Параметр-функция
+			to_code_load(info, info->register_num, expression_identifier_get_id(&argument)
+				, arguments_value_type[i], false, true);
+			info->answer_reg = info->register_num++;
+			info->answer_kind = AREG;
+		}
 		else
 		{
 			info->answer_kind = ANULL;
@@ -1242,8 +1264,15 @@ static void emit_call_expression(information *const info, const node *const nd)
 			const node argument = expression_call_get_argument(nd, i);
 			const size_t id = expression_identifier_get_id(&argument);
 
-			uni_printf(info->sx->io, " @");
-			func_name_to_io(info, id);
+			if (arguments_type[i] == AREG)
+			{
+				uni_printf(info->sx->io, " %%.%zu", arguments[i]);
+			}
+			else
+			{
+				uni_printf(info->sx->io, " @");
+				func_name_to_io(info, id);
+			}
 		}
 		else
 		{
@@ -1274,7 +1303,7 @@ static void emit_member_expression(information *const info, const node *const nd
 
 	const node base = expression_member_get_base(nd);
 
-	item_t type = expression_get_type(&base);
+	item_t type = type_get_unqualified(info, expression_get_type(&base));
 	const size_t id = node_get_type(&base) == OP_IDENTIFIER ? expression_identifier_get_id(&base) : SIZE_MAX;
 
 	bool is_complex = false;
@@ -1284,7 +1313,7 @@ static void emit_member_expression(information *const info, const node *const nd
 		info->variable_location = LFREE;
 		emit_expression(info, &base);
 		info->variable_location = loc;
-		type = type_pointer_get_element_type(info->sx, type);
+		type = type_get_unqualified(info, type_pointer_get_element_type(info->sx, type));
 		is_complex = true;
 	}
 	else if (expression_get_class(&base) == EXPR_SUBSCRIPT) // структура в массиве
@@ -1878,7 +1907,7 @@ static void emit_structure_initialization(information *const info, const node *c
 	for (size_t i = 0; i < size; i++)
 	{
 		const node initializer = expression_initializer_get_subexpr(nd, i);
-		const item_t member_type = type_structure_get_member_type(info->sx, type, i);
+		const item_t member_type = type_get_unqualified(info, type_structure_get_member_type(info->sx, type, i));
 
 		const size_t member_reg = info->register_num++;
 		uni_printf(info->sx->io, " %%.%zu = getelementptr inbounds %%struct_opt.%" PRIitem ", %%struct_opt.%" PRIitem
@@ -1906,7 +1935,7 @@ static void emit_structure_constant(information *const info, const node *const n
 	for (size_t i = 0; i < size; i++)
 	{
 		const node initializer = expression_initializer_get_subexpr(nd, i);
-		const item_t member_type = type_structure_get_member_type(info->sx, type, i);
+		const item_t member_type = type_get_unqualified(info, type_structure_get_member_type(info->sx, type, i));
 		uni_printf(info->sx->io, i == 0 ? "" : ", ");
 
 		if (expression_get_class(&initializer) == EXPR_INITIALIZER && type_is_structure(info->sx, member_type))
@@ -2175,7 +2204,7 @@ static void emit_variable_declaration(information *const info, const node *const
 	// TODO: объявления глобальных переменных
 	const size_t id = declaration_variable_get_id(nd);
 	const bool has_init = declaration_variable_has_initializer(nd);
-	const item_t type = ident_get_type(info->sx, id);
+	const item_t type = type_get_unqualified(info, ident_get_type(info->sx, id));
 
 	if (!type_is_array(info->sx, type) && is_local) // обычная переменная int a; или struct point p;
 	{
-- 
2.43.0


From b70d0a091fa7fe4774d7f192bbf6e8fa772b9c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:08 +0000
Subject: [PATCH 096/104] fix: unary operators over constants in LLVM code

---
 libs/compiler/llvmgen.c | 45 +++++++++++------------------------------
 1 file changed, 12 insertions(+), 33 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 0a326af..1bc9496 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -407,26 +407,6 @@ static void to_code_operation_reg_const_double(information *const info, const bi
 	uni_printf(info->sx->io, "\n");
 }
 
-static void to_code_operation_const_reg_integer(information *const info, const binary_t operation
-	, const item_t fst, const size_t snd, const item_t type)
-{
-	uni_printf(info->sx->io, " %%.%zu = ", info->register_num);
-	operation_to_io(info, operation, TYPE_INTEGER);
-	uni_printf(info->sx->io, " ");
-	type_to_io(info, type);
-	uni_printf(info->sx->io, " %" PRIitem ", %%.%zu\n", fst, snd);
-}
-
-static void to_code_operation_const_reg_double(information *const info, const binary_t operation
-	, const double fst, const size_t snd)
-{
-	uni_printf(info->sx->io, " %%.%zu = ", info->register_num);
-	operation_to_io(info, operation, TYPE_FLOATING);
-	uni_printf(info->sx->io, " double ");
-	double_to_io(info, fst);
-	uni_printf(info->sx->io, ", %%.%zu\n", snd);
-}
-
 static void to_code_operation_reg_null(information *const info, const binary_t operation
 	, const size_t fst, const item_t type)
 {
@@ -1451,18 +1431,14 @@ static void emit_unary_expression(information *const info, const node *const nd)
 			emit_expression(info, &operand);
 			to_code_convert(info, operation_type, expression_get_type(&operand));
 
-			if (operator == UN_MINUS && type_is_integer(info->sx, operation_type))
-			{
-				to_code_operation_const_reg_integer(info, BIN_SUB, 0, info->answer_reg, operation_type);
-			}
-			else if (operator == UN_NOT)
-			{
-				to_code_operation_reg_const_integer(info, BIN_XOR, info->answer_reg, -1, operation_type);
-			}
-			else if (operator == UN_MINUS && type_is_floating(info->sx, operation_type))
-			{
-				to_code_operation_const_reg_double(info, BIN_SUB, -0.0, info->answer_reg);
-			}
+			uni_printf(info->sx->io, " %%.%zu = ", info->register_num);
+			operation_to_io(info, operator == UN_MINUS ? BIN_SUB : BIN_XOR, operation_type);
+			uni_printf(info->sx->io, " ");
+			type_to_io(info, operation_type);
+			uni_printf(info->sx->io, operator == UN_NOT ? " -1, " : type_is_floating(info->sx, operation_type) ? " -0.0, " : " 0, ");
+			answer_to_io(info, operation_type, info->answer_kind, info->answer_reg, info->answer_const
+				, info->answer_const_double, info->answer_const_bool);
+			uni_printf(info->sx->io, "\n");
 
 			info->answer_kind = AREG;
 			info->answer_reg = info->register_num++;
@@ -1549,7 +1525,10 @@ static void emit_unary_expression(information *const info, const node *const nd)
 			}
 
 			type_to_io(info, type);
-			uni_printf(info->sx->io, " %%.%zu)\n", info->answer_reg);
+			uni_printf(info->sx->io, " ");
+			answer_to_io(info, type, info->answer_kind, info->answer_reg, info->answer_const
+				, info->answer_const_double, info->answer_const_bool);
+			uni_printf(info->sx->io, ")\n");
 
 			info->answer_kind = AREG;
 			info->answer_reg = info->register_num++;
-- 
2.43.0


From 60e54d75ec3e0f64f21114473cc7bd30ae03d7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:22 +0000
Subject: [PATCH 097/104] fix: stack saved and restored on every path of LLVM
 code

---
 libs/compiler/llvmgen.c | 54 +++++++++++------------------------------
 1 file changed, 14 insertions(+), 40 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 1bc9496..c101742 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -57,7 +57,6 @@ typedef struct information
 	size_t register_num;					/**< Номер регистра */
 	size_t label_num;						/**< Номер метки */
 	item_t init_num;						/**< Счётчик для инициализации */
-	item_t block_num;						/**< Номер блока */
 
 	size_t request_reg;						/**< Регистр на запрос */
 	location_t variable_location;			/**< Расположение переменной */
@@ -82,7 +81,6 @@ typedef struct information
 												@c value[1..MAX] - границы массива */
 
 	bool was_stack_functions;				/**< Истина, если использовались стековые функции */
-	bool was_dynamic;						/**< Истина, если в функции были динамические массивы */
 	bool was_file;							/**< Истина, если была работа с файлами */
 	bool was_abs;							/**< Истина, если был вызов abs */
 	bool was_fabs;							/**< Истина, если был вызов fabs */
@@ -487,27 +485,19 @@ static inline void to_code_conditional_branch(information *const info)
 		, info->answer_reg, info->label_true, info->label_false);
 }
 
-static void to_code_stack_save(information *const info, const item_t index)
+static size_t to_code_stack_save(information *const info)
 {
 	// команды сохранения состояния стека
-	uni_printf(info->sx->io, " %%dyn.%" PRIitem " = alloca i8*, align 4\n", index);
 	uni_printf(info->sx->io, " %%.%zu = call i8* @llvm.stacksave()\n", info->register_num);
-	uni_printf(info->sx->io, " store i8* %%.%zu, i8** %%dyn.%" PRIitem ", align 4\n"
-		, info->register_num, index);
-	info->register_num++;
-
 	info->was_stack_functions = true;
+
+	return info->register_num++;
 }
 
-static void to_code_stack_load(information *const info, const item_t index)
+static void to_code_stack_load(information *const info, const size_t reg)
 {
 	// команды восстановления состояния стека
-	uni_printf(info->sx->io, " %%.%zu = load i8*, i8** %%dyn.%" PRIitem ", align 4\n"
-		, info->register_num, index);
-	uni_printf(info->sx->io, " call void @llvm.stackrestore(i8* %%.%zu)\n", info->register_num);
-	info->register_num++;
-
-	info->was_stack_functions = true;
+	uni_printf(info->sx->io, " call void @llvm.stackrestore(i8* %%.%zu)\n", reg);
 }
 
 static void to_code_alloc_array_static(information *const info, const size_t index, const item_t type, const bool is_local)
@@ -2331,13 +2321,7 @@ static void emit_variable_declaration(information *const info, const node *const
 		}
 		else if (!has_init) // объявление массива, если он динамический
 		{
-			if (!info->was_dynamic)
-			{
-				to_code_stack_save(info, -1);
-			}
-
 			to_code_alloc_array_dynamic(info, index, element_type);
-			info->was_dynamic = true;
 		}
 	}
 
@@ -2360,7 +2344,6 @@ static void emit_function_definition(information *const info, const node *const
 	const item_t func_type = ident_get_type(info->sx, ref_ident);
 	const item_t ret_type = ref_ident != info->sx->ref_main ? type_function_get_return_type(info->sx, func_type) : TYPE_INTEGER;
 	const size_t parameters = type_function_get_parameter_amount(info->sx, func_type);
-	info->was_dynamic = false;
 	info->return_type = ret_type;
 
 	uni_printf(info->sx->io, "define ");
@@ -2427,10 +2410,6 @@ static void emit_function_definition(information *const info, const node *const
 
 	if (type_is_void(ret_type))
 	{
-		if (info->was_dynamic)
-		{
-			to_code_stack_load(info, -1);
-		}
 		uni_printf(info->sx->io, " ret void\n");
 	}
 	else if (ref_ident == info->sx->ref_main)
@@ -2478,11 +2457,7 @@ static void emit_declaration(information *const info, const node *const nd, cons
  */
 static void emit_compound_statement(information *const info, const node *const nd, const bool is_function_body)
 {
-	const item_t block_num = info->block_num++;
-	if (!is_function_body)
-	{
-		to_code_stack_save(info, block_num);
-	}
+	const size_t stack_reg = is_function_body ? 0 : to_code_stack_save(info);
 
 	const size_t size = statement_compound_get_size(nd);
 	for (size_t i = 0; i < size; i++)
@@ -2495,7 +2470,7 @@ static void emit_compound_statement(information *const info, const node *const n
 		{
 			if (!is_function_body)
 			{
-				to_code_stack_load(info, block_num);
+				to_code_stack_load(info, stack_reg);
 			}
 			to_code_unconditional_branch(info, info->label_switch);
 		}
@@ -2503,7 +2478,7 @@ static void emit_compound_statement(information *const info, const node *const n
 		{
 			if (!is_function_body)
 			{
-				to_code_stack_load(info, block_num);
+				to_code_stack_load(info, stack_reg);
 			}
 		}
 	}
@@ -2574,8 +2549,10 @@ static void emit_while_statement(information *const info, const node *const nd)
 	info->label_break = label_end;
 	info->label_continue = label_condition;
 
+	const size_t stack_reg = to_code_stack_save(info);
 	to_code_unconditional_branch(info, label_condition);
 	to_code_label(info, label_condition);
+	to_code_stack_load(info, stack_reg);
 
 	info->variable_location = LFREE;
 	const node condition = statement_while_get_condition(nd);
@@ -2618,6 +2595,7 @@ static void emit_do_statement(information *const info, const node *const nd)
 	info->label_break = label_end;
 	info->label_continue = label_condition;
 
+	const size_t stack_reg = to_code_stack_save(info);
 	to_code_unconditional_branch(info, label_loop);
 	to_code_label(info, label_loop);
 
@@ -2626,6 +2604,7 @@ static void emit_do_statement(information *const info, const node *const nd)
 
 	to_code_unconditional_branch(info, label_condition);
 	to_code_label(info, label_condition);
+	to_code_stack_load(info, stack_reg);
 
 	info->variable_location = LFREE;
 	const node condition = statement_do_get_condition(nd);
@@ -2671,6 +2650,7 @@ static void emit_for_statement(information *const info, const node *const nd)
 		emit_statement(info, &inition);
 	}
 
+	const size_t stack_reg = to_code_stack_save(info);
 	if (statement_for_has_condition(nd))
 	{
 		to_code_unconditional_branch(info, label_condition);
@@ -2687,6 +2667,7 @@ static void emit_for_statement(information *const info, const node *const nd)
 	}
 
 	to_code_label(info, label_incr);
+	to_code_stack_load(info, stack_reg);
 	if (statement_for_has_increment(nd))
 	{
 		const node increment = statement_for_get_increment(nd);
@@ -2723,11 +2704,6 @@ static void emit_for_statement(information *const info, const node *const nd)
  */
 static void emit_return_statement(information *const info, const node *const nd)
 {
-	if (info->was_dynamic)
-	{
-		to_code_stack_load(info, -1);
-	}
-
 	if (info->is_main)
 	{
 		uni_printf(info->sx->io, " ret i32 0\n");
@@ -3215,12 +3191,10 @@ int encode_to_llvm(const workspace *const ws, syntax *const sx)
 	info.label_num = 1;
 	info.label_switch = 0;
 	info.init_num = 1;
-	info.block_num = 1;
 	info.variable_location = LREG;
 	info.request_reg = 0;
 	info.answer_reg = 0;
 	info.was_stack_functions = false;
-	info.was_dynamic = false;
 	info.was_file = false;
 	info.was_abs = false;
 	info.was_fabs = false;
-- 
2.43.0


From b987b05ce2f70ddada468d0792860fb057dc405f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:40 +0000
Subject: [PATCH 098/104] fix: quotes, backslashes and control characters of
 strings in LLVM code

---
 libs/compiler/llvmgen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index c101742..5c85f4e 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -3063,9 +3063,9 @@ static void strings_declaration(information *const info)
 		for (size_t j = 0; j < length; j++)
 		{
 			const char ch = string[j];
-			if (ch == '\n')
+			if ((unsigned char)ch < ' ' || ch == '"' || ch == '\\')
 			{
-				uni_printf(info->sx->io, "\\0A");
+				uni_printf(info->sx->io, "\\%02X", (unsigned)ch);
 			}
 			else
 			{
-- 
2.43.0


From ec3f8430a035ccad435475160f8bc44b01ca04b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:54 +0000
Subject: [PATCH 099/104] fix: subscripts of string literals in LLVM code

---
 libs/compiler/llvmgen.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 5c85f4e..f0c7fb6 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -1008,9 +1008,11 @@ static void emit_subscript_expression(information *const info, const node *const
 	{
 		emit_expression(info, &base);
 
-		const char *string = string_get(info->sx, info->answer_string);
-		const size_t length = strings_length(info->sx, info->answer_string);
+		const size_t string_index = info->answer_string;
+		const char *string = string_get(info->sx, string_index);
+		const size_t length = strings_length(info->sx, string_index);
 
+		info->variable_location = LFREE;
 		const node index = expression_subscript_get_index(nd);
 		emit_expression(info, &index);
 
@@ -1022,10 +1024,21 @@ static void emit_subscript_expression(information *const info, const node *const
 			}
 			else
 			{
-				uni_printf(info->sx->io, " call void @exit(i32 1)");
-				info->answer_const = ITEM_MAX;
+				uni_printf(info->sx->io, " call void @exit(i32 1)\n");
+				info->answer_const = 0;
 			}
 		}
+		else
+		{
+			to_code_extend(info, expression_get_type(&index));
+			uni_printf(info->sx->io, " %%.%zu = getelementptr inbounds [%zu x i8], [%zu x i8]* @.str%zu, i32 0, i32 %%.%zu\n"
+				, info->register_num, length + 1, length + 1, string_index, info->answer_reg);
+			info->register_num++;
+
+			to_code_load(info, info->register_num, info->register_num - 1, TYPE_CHARACTER, true, true);
+			info->answer_reg = info->register_num++;
+			info->answer_kind = AREG;
+		}
 
 		return;
 	}
-- 
2.43.0


From 6814134be30b86726f35534ba84a4d2b0a8106d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:10 +0000
Subject: [PATCH 100/104] fix: subscripts of dynamic arrays of several
 dimensions in LLVM code

---
 libs/compiler/llvmgen.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index f0c7fb6..cbe0baa 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -559,9 +559,31 @@ static void to_code_alloc_array_dynamic(information *const info, const size_t in
 static void to_code_slice(information *const info, const item_t id, const size_t cur_dimension
 	, const item_t prev_slice, const item_t type, const bool is_local)
 {
-	uni_printf(info->sx->io, " %%.%zu = getelementptr inbounds ", info->register_num);
 	const size_t dimensions = hash_get_amount(&info->arrays, id) - 1;
 
+	if (dimensions != SIZE_MAX && !hash_get(&info->arrays, id, IS_STATIC))
+	{
+		// Динамический массив лежит в памяти подряд, поэтому индекс умножается на размеры внутренних измерений
+		for (size_t i = dimensions - cur_dimension + 1; i <= dimensions; i++)
+		{
+			uni_printf(info->sx->io, " %%.%zu = mul nsw i32 ", info->register_num);
+			if (info->answer_kind == AREG)
+			{
+				uni_printf(info->sx->io, "%%.%zu", info->answer_reg);
+			}
+			else // if (info->answer_kind == ACONST)
+			{
+				uni_printf(info->sx->io, "%" PRIitem, info->answer_const);
+			}
+			uni_printf(info->sx->io, ", %%.%" PRIitem "\n", hash_get(&info->arrays, id, i));
+
+			info->answer_kind = AREG;
+			info->answer_reg = info->register_num++;
+		}
+	}
+
+	uni_printf(info->sx->io, " %%.%zu = getelementptr inbounds ", info->register_num);
+
 	if (dimensions == SIZE_MAX)
 	{
 		return;
@@ -975,7 +997,6 @@ static void emit_literal_expression(information *const info, const node *const n
 static void emit_one_dimension_subscript(information *const info, const node *const nd, const size_t id
 	, const size_t cur_dimension)
 {
-	// TODO: научиться обрабатывать многомерные динамические массивы
 	const node base = node_get_type(nd) == OP_SLICE ? expression_subscript_get_base(nd) : node_broken();
 	const size_t dimensions = hash_get_amount(&info->arrays, id) - 1;
 	const bool is_local = ident_is_local(info->sx, id);
-- 
2.43.0


From 5eb5859f60071846be0b22e5b9d671b81ceea43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:49 +0000
Subject: [PATCH 101/104] fix: array literals as arguments in several functions
 in LLVM code

---
 libs/compiler/llvmgen.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index cbe0baa..f00ecf7 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -1981,6 +1981,7 @@ static void emit_initializer_expression(information *const info, const node *con
 		const size_t answer = info->register_num;
 
 		emit_initialization(info, nd, hash_get_key(&info->arrays, index), expression_get_type(nd));
+		hash_remove_by_index(&info->arrays, index); // в следующей функции номера регистров повторятся
 
 		info->answer_kind = AREG;
 		info->answer_reg = answer;
@@ -2122,7 +2123,8 @@ static void emit_initialization(information *const info, const node *const nd, c
 		}
 
 		const item_t type = array_get_type(info, arr_type);
-		const bool is_local = ident_is_local(info->sx, (size_t)id);
+		// Отрицательные номера у массивов, не имеющих идентификатора
+		const bool is_local = id < 0 || ident_is_local(info->sx, (size_t)id);
 
 		// TODO: с глобальными массивами хорошо бы как-то покрасивее сделать
 		// а неконстантными выражениями глобальный массив может инициализироваться?
-- 
2.43.0


From ecfa26bd708dcf2b15124fe7cd253633bd180696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:19 +0000
Subject: [PATCH 102/104] fix: global character arrays initialized by strings
 in LLVM code

---
 libs/compiler/llvmgen.c | 55 ++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index f00ecf7..55cbd8a 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -100,6 +100,8 @@ static void emit_declaration(information *const info, const node *const nd, cons
 static void emit_one_dimension_initialization(information *const info, const node *const nd, const item_t id
 	, const item_t arr_type, const size_t cur_dimension, const item_t prev_slice, const bool is_local);
 static void emit_initialization(information *const info, const node *const nd, const item_t id, const item_t arr_type);
+static void emit_string_initialization(information *const info, const node *const nd, const item_t id
+	, const item_t arr_type, const bool is_local);
 static void to_code_structure_address(information *const info, const size_t id, const item_t type, const bool is_local);
 
 
@@ -810,7 +812,14 @@ static void global_initialization(information *const info)
 			{
 				const size_t dimensions = array_get_dim(info, type);
 				const node initializer = declaration_variable_get_initializer(&decl);
-				emit_one_dimension_initialization(info, &initializer, id, type, dimensions - 1, 0, false);
+				if (expression_get_class(&initializer) == EXPR_LITERAL)
+				{
+					emit_string_initialization(info, &initializer, id, type, false);
+				}
+				else
+				{
+					emit_one_dimension_initialization(info, &initializer, id, type, dimensions - 1, 0, false);
+				}
 			}
 		}
 	}
@@ -2097,6 +2106,32 @@ static void emit_one_dimension_initialization(information *const info, const nod
 	}
 }
 
+/**
+ *	Emit initialization of character array by string
+ *
+ *	@param	info		Encoder
+ *	@param	nd			String literal in AST
+ *	@param	id			Identifier of target lvalue
+ *	@param	arr_type	Array type of target lvalue
+ *	@param	is_local	Set if target is local
+ */
+static void emit_string_initialization(information *const info, const node *const nd, const item_t id
+	, const item_t arr_type, const bool is_local)
+{
+	const char *string = string_get(info->sx, expression_literal_get_string(nd));
+	const size_t length = strings_length(info->sx, expression_literal_get_string(nd));
+	const item_t type = array_get_type(info, arr_type);
+
+	for (size_t i = 0; i <= length; i++)
+	{
+		info->answer_const = (item_t)i;
+		info->answer_kind = ACONST;
+		const size_t slice_reg = (size_t)info->register_num;
+		to_code_slice(info, id, 0, 0, type, is_local);
+		to_code_store_const_integer(info, i < length ? string[i] : 0, slice_reg, true, true, type);
+	}
+}
+
 /**
  *	Emit initialization of lvalue
  *
@@ -2142,29 +2177,19 @@ static void emit_initialization(information *const info, const node *const nd, c
 	// массив инициализируется строкой
 	else if (expression_get_class(nd) == EXPR_LITERAL && type_is_array(info->sx, expression_get_type(nd)))
 	{
-		const char *string = string_get(info->sx, expression_literal_get_string(nd));
 		const size_t length = strings_length(info->sx, expression_literal_get_string(nd));
 
 		const size_t index = hash_get_index(&info->arrays, id);
 		hash_set_by_index(&info->arrays, index, 1, (item_t)length + 1);
 
 		const item_t type = array_get_type(info, arr_type);
-		to_code_alloc_array_static(info, index, type, true);
+		const bool is_local = ident_is_local(info->sx, (size_t)id);
 
-		for (size_t i = 0; i < length; i++)
+		to_code_alloc_array_static(info, index, type, is_local);
+		if (is_local)
 		{
-			info->answer_const = (item_t)i;
-			info->answer_kind = ACONST;
-			const size_t slice_reg = (size_t)info->register_num;
-			to_code_slice(info, id, 0, 0, type, true);
-			to_code_store_const_integer(info, string[i], slice_reg, true, true, type);
+			emit_string_initialization(info, nd, id, arr_type, true);
 		}
-
-		info->answer_const = (item_t)length;
-		info->answer_kind = ACONST;
-		const size_t slice_reg = (size_t)info->register_num;
-		to_code_slice(info, id, 0, 0, type, true);
-		to_code_store_const_integer(info, 0, slice_reg, true, true, type);
 	}
 	else if (expression_get_class(nd) == EXPR_INITIALIZER && type_is_structure(info->sx, expression_get_type(nd)))
 	{
-- 
2.43.0


From 4136550e3f7b7fd5500022e9aeec099f2c6cbbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:49 +0000
Subject: [PATCH 103/104] fix: global variables initialized by expressions in
 LLVM code

---
 libs/compiler/llvmgen.c | 64 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 62 insertions(+), 2 deletions(-)

diff --git a/libs/compiler/llvmgen.c b/libs/compiler/llvmgen.c
index 55cbd8a..c10d9bb 100644
--- a/libs/compiler/llvmgen.c
+++ b/libs/compiler/llvmgen.c
@@ -103,6 +103,7 @@ static void emit_initialization(information *const info, const node *const nd, c
 static void emit_string_initialization(information *const info, const node *const nd, const item_t id
 	, const item_t arr_type, const bool is_local);
 static void to_code_structure_address(information *const info, const size_t id, const item_t type, const bool is_local);
+static void emit_structure_initialization(information *const info, const node *const nd, const item_t type, const size_t reg);
 
 
 static item_t type_get_unqualified(information *const info, const item_t type)
@@ -793,6 +794,39 @@ static void to_code_boolean(information *const info, const item_t type)
 }
 
 
+/** Check that value of initializer is written in the code as a constant */
+static bool is_constant_initializer(const node *const nd)
+{
+	switch (expression_get_class(nd))
+	{
+		case EXPR_LITERAL:
+			return true;
+
+		case EXPR_CAST:
+		{
+			const node operand = expression_cast_get_operand(nd);
+			return is_constant_initializer(&operand);
+		}
+
+		case EXPR_INITIALIZER:
+		{
+			const size_t size = expression_initializer_get_size(nd);
+			for (size_t i = 0; i < size; i++)
+			{
+				const node subexpr = expression_initializer_get_subexpr(nd, i);
+				if (!is_constant_initializer(&subexpr))
+				{
+					return false;
+				}
+			}
+			return true;
+		}
+
+		default:
+			return false;
+	}
+}
+
 static void global_initialization(information *const info)
 {
 	const node root = node_get_root(&info->sx->tree);
@@ -806,7 +840,7 @@ static void global_initialization(information *const info)
 		{
 			const size_t id = declaration_variable_get_id(&decl);
 			const bool has_init = declaration_variable_has_initializer(&decl);
-			const item_t type = ident_get_type(info->sx, id);
+			const item_t type = type_get_unqualified(info, ident_get_type(info->sx, id));
 
 			if (type_is_array(info->sx, type) && has_init)
 			{
@@ -821,6 +855,27 @@ static void global_initialization(information *const info)
 					emit_one_dimension_initialization(info, &initializer, id, type, dimensions - 1, 0, false);
 				}
 			}
+			else if (has_init)
+			{
+				const node initializer = declaration_variable_get_initializer(&decl);
+				if (is_constant_initializer(&initializer))
+				{
+					continue;
+				}
+
+				info->variable_location = LFREE;
+				if (expression_get_class(&initializer) == EXPR_INITIALIZER)
+				{
+					to_code_structure_address(info, id, type, false);
+					emit_structure_initialization(info, &initializer, type, info->answer_reg);
+				}
+				else
+				{
+					emit_expression(info, &initializer);
+					to_code_convert(info, type, expression_get_type(&initializer));
+					to_code_store_answer(info, type, id, false, false);
+				}
+			}
 		}
 	}
 }
@@ -2282,7 +2337,10 @@ static void emit_variable_declaration(information *const info, const node *const
 	{
 		uni_printf(info->sx->io, "@var.%zu = ", id);
 
-		if (declaration_variable_has_initializer(nd))
+		// Остальные значения вычисляются в начале main
+		const node initial = declaration_variable_has_initializer(nd)
+			? declaration_variable_get_initializer(nd) : node_broken();
+		if (declaration_variable_has_initializer(nd) && is_constant_initializer(&initial))
 		{
 			info->variable_location = LFREE;
 
@@ -2334,6 +2392,8 @@ static void emit_variable_declaration(information *const info, const node *const
 			}
 			uni_printf(info->sx->io, ", align 4\n");
 		}
+
+		return;
 	}
 	else // массив
 	{
-- 
2.43.0


From b0dd63173b9d4b72ad096447ca1b2706d89d38f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:20 +0000
Subject: [PATCH 104/104] fix: fold the absolute value of a negative floating
 zero to zero

---
 libs/compiler/builder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/compiler/builder.c b/libs/compiler/builder.c
index 6f45699..e8d82f4 100644
--- a/libs/compiler/builder.c
+++ b/libs/compiler/builder.c
@@ -124,7 +124,7 @@ static node fold_unary_expression(builder *const bldr, const item_t type, const
 				case UN_MINUS:
 					return build_floating_literal_expression(bldr, -value, loc);
 				case UN_ABS:
-					return build_floating_literal_expression(bldr, value >= 0 ? value : -value, loc);
+					return build_floating_literal_expression(bldr, value > 0 ? value : 0 - value, loc);
 				default:
 					return node_broken();
 			}
-- 
2.43.0

