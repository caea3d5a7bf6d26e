// Contracts of the lexer (lexer.c): which token a text is, and the value and type of literals (C99 6.4).
#include "lexer.c"
#include "vf.h"

#ifndef LEN
#define LEN 8
#endif
#ifndef FIRST
#define FIRST 0
#define LAST 0
#endif
static char text[LEN + 2];
static char ident_buf[MAX_IDENTIFIER_SIZE];
static int string_buf[64];

// A character: any, with the ones that mean something in literals drawn more often
static int draw_char(void) {
    static const char often[] = "\\\\\\\"\"''01234567789abcdefxnrtvaefbuUlLL..x";
    long c = vf_range(-128, 127 + 120);
    return c <= 127 ? (int) c : often[(c - 128) % (sizeof(often) - 1)];
}
static long in_c[LEN];
static void draw_text(void) { for (int i = 0; i < LEN; i++) in_c[i] = draw_char(); }
// The text is at the end of the file: the lexer must not look further than the terminator the reader puts there
static void set_text(int n) {
    for (int i = 0; i < LEN; i++) text[i] = i < n ? in_c[i] : 0;
    text[LEN] = 0;
    input = text; input_size = n; ip = 0; cur_line = 1; cur_token = 0; cur_long = 0; cur_lexer_type = 0;
    cur_identifier = ident_buf; cur_string_literal.data = (char *) string_buf; all_typedefs_count = 0;
    warn_integer_constant_too_large = 0;
}
#ifdef VF_PLAIN
#include "../contracts.h"
// Contracts of the parts of next(), each enforced on its own below (tasks decimal, octal, hexadecimal, floating, string)
static int gh_called, gh_at;
static void gh_note(int f) { gh_called = gh_called ? -1 : f; gh_at = ip; }
void vfc_lex_non_hex_literal(void) { gh_note(1); cur_token = TOK_INTEGER; }
void vfc_lex_hex_literal(void) { gh_note(2); }
void vfc_finish_integer_constant(int is_decimal) { __CPROVER_assert(!is_decimal, "vf: a hexadecimal constant is not decimal"); }
void vfc_lex_string_literal(void) { gh_note(3); cur_token = TOK_STRING_LITERAL; }
#endif

static int sp_odigit(int c) { return c >= '0' && c <= '7'; }
static int sp_ddigit(int c) { return c >= '0' && c <= '9'; }
static int sp_hex(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int sp_letter(int c) { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'; }
static int sp_space(int c) { return c == ' ' || c == '\t' || c == '\f' || c == '\v' || c == '\r' || c == '\n'; }

// Length of a valid integer suffix, 0 if there is none, -1 if not a valid one. Sets *u and *l
static int sp_suffix(const char *t, int *u, int *l) {
    int n = 0;
    *u = *l = 0;
    if (t[n] == 'u' || t[n] == 'U') { *u = 1; n++; }
    if (t[n] == 'l' || t[n] == 'L') { int c = t[n]; *l = 1; n++; if (t[n] == c) n++; }
    if (!*u && (t[n] == 'u' || t[n] == 'U')) { *u = 1; n++; }
    if (sp_letter(t[n]) || sp_ddigit(t[n]) || t[n] == '.') return -1;
    return n;
}
// 6.4.4.1p5: the first type of the list that can hold the value; -1: none
static int sp_int_type(unsigned long v, int decimal, int u, int l, int *is_unsigned) {
    if (!l && !u && v <= 0x7fffffff) { *is_unsigned = 0; return TYPE_INT; }
    if (!l && (u || !decimal) && v <= 0xffffffff) { *is_unsigned = 1; return TYPE_INT; }
    if (!u && v <= 0x7fffffffffffffff) { *is_unsigned = 0; return TYPE_LONG; }
    if (u || !decimal) { *is_unsigned = 1; return TYPE_LONG; }
    return -1;
}

// ---------------------------------------------------------------- integer constants
void h_suffix(void) {
    VF_BEGIN();
    draw_text();
    long v = vf_long(), decimal = vf_range(0, 1), n = vf_range(0, LEN);
    set_text(n);
    int u, l, is_unsigned = 0;
    int k = sp_suffix(text, &u, &l);
    VF_ASSUME(k >= 0);
    int type = sp_int_type(v, decimal, u, l, &is_unsigned);
    VF_ASSUME(type >= 0);
    cur_long = v;
    VF_MUST_ACCEPT();
    finish_integer_constant(decimal);
    VF_POST("type of the constant", cur_lexer_type->type == type && !!cur_lexer_type->is_unsigned == is_unsigned);
    VF_POST("value of the constant", cur_long == v);
    VF_POST("the suffix is consumed", ip == k);
    VF_REACH();
}

// BASE 10, 8 or 16; the digits are any, as long as the value fits into 64 bits
#ifndef BASE
#define BASE 10
#endif
void h_number(void) {
    VF_BEGIN();
    for (int i = 0; i < LEN; i++) in_c[i] = vf_range(0, 1) ? draw_char() : "0123456789abcdefABCDEF"[vf_range(0, BASE == 10 ? 9 : BASE == 8 ? 7 : 21)];
    if (BASE == 16) { in_c[0] = '0'; in_c[1] = 'x'; }
    set_text(LEN);
    VF_ASSUME(BASE == 16 ? sp_hex(text[2]) >= 0 : BASE == 8 ? text[0] == '0' && !(text[1] == 'x' || text[1] == 'X') : text[0] >= '1' && text[0] <= '9');
    unsigned long v = 0;
    int k = BASE == 16 ? 2 : 0, too_large = 0, done = 0;
    for (int i = k; i < LEN; i++) {
        int d = BASE == 16 ? sp_hex(text[i]) : sp_ddigit(text[i]) ? text[i] - '0' : -1;
        if (d < 0) done = 1;
        if (!done) {
            VF_ASSUME(BASE != 8 || d < 8);
            if (BASE == 16 ? v >> 60 : BASE == 8 ? v >> 61 : v > 0xffffffffffffffff / 10 || v * 10 > 0xffffffffffffffff - d) too_large = 1;
            v = v * BASE + d;
            k++;
        }
    }
    int u, l, is_unsigned = 0;
    int s = sp_suffix(text + k, &u, &l);
    VF_ASSUME(!too_large && s >= 0 && text[k] != '.');
    int type = sp_int_type(v, BASE == 10, u, l, &is_unsigned);
    VF_ASSUME(type >= 0);
    VF_MUST_ACCEPT();
    if (BASE == 16) { ip = 2; lex_hex_literal(); VF_POST("the digits are consumed", ip == k); finish_integer_constant(0); }
    else { lex_non_hex_literal(); VF_POST("an integer", cur_token == TOK_INTEGER); }
    VF_POST("value of the constant", (unsigned long) cur_long == v);
    VF_POST("type of the constant", cur_lexer_type->type == type && !!cur_lexer_type->is_unsigned == is_unsigned);
    VF_POST("the whole constant is consumed", ip == k + s);
    VF_REACH();
}

// Decimal constants: all of them (one with more than 20 digits does not fit into 64 bits), by number of digits
void h_decimal(void) {
    VF_BEGIN();
    long digits = vf_range(FIRST, LAST);
    for (int i = 0; i < LEN; i++) in_c[i] = vf_range(0, 9);
    long c1 = draw_char(), c2 = draw_char(), c3 = draw_char(), c4 = draw_char();
    VF_CASES(n, digits, FIRST, LAST,
        for (int i = 0; i < LEN; i++) in_c[i] = i < n ? '0' + in_c[i] : i == n ? c1 : i == n + 1 ? c2 : i == n + 2 ? c3 : i == n + 3 ? c4 : 0;
        set_text(LEN);
        int u; int l; int is_unsigned = 0; int too_large = 0;
        VF_ASSUME(text[0] != '0' && !sp_ddigit(text[n]) && text[n] != '.');
        int s = sp_suffix(text + n, &u, &l);
        unsigned long v = 0;
        for (int i = 0; i < n; i++) {
            if (i == 19) too_large = v > 0xffffffffffffffff / 10 || v == 0xffffffffffffffff / 10 && text[i] > '5';
            v = v * 10 + (text[i] - '0');
        }
        VF_ASSUME(!too_large && s >= 0);
        int type = sp_int_type(v, 1, u, l, &is_unsigned);
        VF_ASSUME(type >= 0);
        VF_MUST_ACCEPT();
        lex_non_hex_literal();
        VF_POST("an integer", cur_token == TOK_INTEGER);
        VF_POST("value of the constant", (unsigned long) cur_long == v);
        VF_POST("type of the constant", cur_lexer_type->type == type && !!cur_lexer_type->is_unsigned == is_unsigned);
        VF_POST("the whole constant is consumed", ip == n + s);
        VF_REACH(););
}

// ---------------------------------------------------------------- floating point constants
// The value is the one the C library gives for the text in the precision of the type (assumed: strtof, strtod and strtold are correctly rounded)
#ifdef VF_CBMC
static int gh_len, gh_bad; static float gh_f; static double gh_d; static long double gh_l;
static void gh_conv(const char *s, char **e) { if (s != text) gh_bad = 1; if (e) *e = (char *) s + gh_len; }
float strtof(const char *s, char **e) { gh_conv(s, e); return gh_f; }
double strtod(const char *s, char **e) { gh_conv(s, e); return gh_d; }
long double strtold(const char *s, char **e) { gh_conv(s, e); return gh_l; }
#endif
void h_floating(void) {
    VF_BEGIN();
    for (int i = 0; i < LEN; i++) in_c[i] = "00123456789......eE+-fFlL;  "[vf_range(0, 27)];
    long bf = vf_long(), bd = vf_long();
    set_text(LEN);
    int k = 0, digits = 0, dot = 0, ex = 0;
    int state = 0;          // 0 integer part, 1 fraction, 2 after e, 3 exponent sign, 4 exponent digits, 5 end
    for (int i = 0; i < LEN; i++) {
        int c = text[i];
        if (state == 5) continue;
        if (sp_ddigit(c)) { if (state <= 1) digits = 1; else state = 4; k = i + 1; }
        else if (c == '.' && state == 0) { state = 1; dot = 1; k = i + 1; }
        else if ((c == 'e' || c == 'E') && state <= 1 && digits) { state = 2; ex = 1; k = i + 1; }
        else if ((c == '+' || c == '-') && state == 2) { state = 3; k = i + 1; }
        else { if (state == 2 || state == 3) digits = 0; state = 5; }
    }
    VF_ASSUME(digits && (dot || ex) && (state != 2 && state != 3));
    int c = text[k], f = c == 'f' || c == 'F', l = c == 'l' || c == 'L', c2 = text[k + (f || l)];
    VF_ASSUME(!sp_letter(c2) && !sp_ddigit(c2) && c2 != '.');
#ifdef VF_CBMC
    union { int i; float f; } uf; union { long i; double d; } ud;
    uf.i = bf; ud.i = bd;
    VF_ASSUME(uf.f == uf.f && ud.d == ud.d);
    gh_len = k; gh_bad = 0; gh_f = uf.f; gh_d = ud.d; gh_l = (long double) ud.d;
    long double want = f ? gh_f : l ? gh_l : gh_d;
#else
    long double want = f ? strtof(text, 0) : l ? strtold(text, 0) : strtod(text, 0);
#endif
    VF_MUST_ACCEPT();
    lex_non_hex_literal();
    VF_POST("a floating point constant", cur_token == TOK_FLOATING_POINT_NUMBER);
    VF_POST("type of the constant", cur_lexer_type->type == (f ? TYPE_FLOAT : l ? TYPE_LONG_DOUBLE : TYPE_DOUBLE));
    VF_POST("value of the constant", cur_long_double == want);
    VF_POST("the whole constant is consumed", ip == k + (f || l));
#ifdef VF_CBMC
    VF_POST("the text of the constant is converted", !gh_bad);
#endif
    VF_REACH();
}

// ---------------------------------------------------------------- characters and strings
// Decodes one character or escape sequence at t: number of bytes, 0 if invalid. *v: its value
static int sp_char(const char *t, int quote, int wide, long *v) {
    if (t[0] == quote || !t[0] || t[0] == '\n') return 0;
    if (wide && t[0] < 0) return 0;                // multi-byte characters: not covered
    if (t[0] != '\\') { *v = t[0]; return 1; }
    int c = t[1];
    *v = c == '\'' || c == '"' || c == '?' || c == '\\' ? c : c == 'a' ? 7 : c == 'b' ? 8 : c == 't' ? 9 : c == 'n' ? 10 : c == 'v' ? 11 : c == 'f' ? 12 : c == 'r' ? 13 : c == 'e' ? 27 : 0;
    if (*v) return 2;
    if (sp_odigit(t[1])) {
        int n = 1;
        *v = 0;
        for (int i = 1; i <= 3; i++) if (n == i && sp_odigit(t[i])) { *v = *v * 8 + t[i] - '0'; n++; }
        if (!wide && *v > 255) return 0;
        if (!wide) *v = (char) *v;
        return n;
    }
    if (t[1] == 'x') {
        int n = 2;
        unsigned long x = 0;
        for (int i = 2; i < LEN; i++) if (n == i && sp_hex(t[i]) >= 0) { x = x * 16 + sp_hex(t[i]); n++; }
        if (n == 2 || x > (wide ? 0xffffffff : 255)) return 0;
        *v = wide ? (int) x : (char) x;
        return n;
    }
    return 0;
}

#ifndef WIDE
#define WIDE 0
#endif
// A character constant of one character. Constants of several characters have an implementation defined value and are not covered.
void h_char(void) {
    VF_BEGIN();
    draw_text();
    long v = 0;
    const int wide = WIDE;
    in_c[wide] = '\'';
    if (wide) in_c[0] = 'L';
    set_text(LEN);
    int k = sp_char(text + wide + 1, '\'', wide, &v);
    VF_ASSUME(k && text[wide + 1 + k] == '\'');
    VF_MUST_ACCEPT();
    next();
    VF_POST("an integer of type int", cur_token == TOK_INTEGER && cur_lexer_type->type == TYPE_INT && !cur_lexer_type->is_unsigned);
    VF_POST("value of the character constant", cur_long == v);
    VF_POST("the whole constant is consumed", ip == wide + k + 2);
    VF_REACH();
}

// String literals, with concatenation of adjacent ones
void h_string(void) {
    static long want[LEN + 1];
    VF_BEGIN();
    draw_text();
    const int n = LEN, wide = WIDE;
    in_c[wide] = '"';
    if (wide) in_c[0] = 'L';
    set_text(n);
    int state = 0, skip = 0, count = 0, end = -1, bad = 0;   // state 0: before a literal, 1: in one, 2: behind one (a concatenation may follow), 3: done
    for (int i = 0; i < LEN + 1; i++) {
        if (skip) { skip--; continue; }
        if (state == 0 || state == 2) {
            if (text[i] == '"') state = 1;
            else if (wide && text[i] == 'L' && text[i + 1] == '"') { state = 1; skip = 1; }
            else if (!wide && state == 2 && text[i] == 'L' && text[i + 1] == '"') bad = 1;      // mixed: not covered
            else if (state == 2 && i < n && sp_space(text[i])) ;
            else { state = 3; end = i; }
            if (state == 1 && i >= n) bad = 1;
        }
        else if (state == 1) {
            if (text[i] == '"') state = 2;
            else {
                int k = sp_char(text + i, '"', wide, &want[count]);
                if (!k) bad = 1;
                else { skip = k - 1; count++; }
            }
        }
        if (state == 3 || bad) break;
    }
    VF_ASSUME(!bad && state >= 2 && end <= n);
    if (state == 2) end = n;
    VF_MUST_ACCEPT();
    lex_string_literal();
    VF_POST("a string literal", cur_token == TOK_STRING_LITERAL && !!cur_string_literal.is_wide_char == wide);
    VF_POST("size of the string literal", cur_string_literal.size == count + 1);
    for (int i = 0; i < LEN; i++)
        VF_POST("character of the string literal", i >= count || (wide ? string_buf[i] == want[i] : cur_string_literal.data[i] == want[i]));
    VF_POST("the terminator", wide ? !string_buf[count] : !cur_string_literal.data[count]);
    VF_POST("the literals are consumed", ip == end);
    VF_REACH();
}

// ---------------------------------------------------------------- punctuators: the longest one that matches, and which kind of token starts here
void h_dispatch(void) {
    static const struct { const char *s; int token; } P[] = {
        {">>=", TOK_BITWISE_RIGHT_EQ}, {"<<=", TOK_BITWISE_LEFT_EQ}, {"...", TOK_ELLIPSES},
        {"&&", TOK_AND}, {"||", TOK_OR}, {"==", TOK_DBL_EQ}, {"!=", TOK_NOT_EQ}, {"<=", TOK_LE}, {">=", TOK_GE}, {"++", TOK_INC}, {"--", TOK_DEC},
        {"+=", TOK_PLUS_EQ}, {"-=", TOK_MINUS_EQ}, {"*=", TOK_MULTIPLY_EQ}, {"/=", TOK_DIVIDE_EQ}, {"%=", TOK_MOD_EQ}, {"&=", TOK_BITWISE_AND_EQ},
        {"|=", TOK_BITWISE_OR_EQ}, {"^=", TOK_BITWISE_XOR_EQ}, {"->", TOK_ARROW}, {">>", TOK_BITWISE_RIGHT}, {"<<", TOK_BITWISE_LEFT},
        {"(", TOK_LPAREN}, {")", TOK_RPAREN}, {"[", TOK_LBRACKET}, {"]", TOK_RBRACKET}, {"{", TOK_LCURLY}, {"}", TOK_RCURLY}, {",", TOK_COMMA}, {";", TOK_SEMI},
        {"?", TOK_TERNARY}, {":", TOK_COLON}, {"+", TOK_PLUS}, {"-", TOK_MINUS}, {"*", TOK_MULTIPLY}, {"/", TOK_DIVIDE}, {"%", TOK_MOD}, {"=", TOK_EQ},
        {"<", TOK_LT}, {">", TOK_GT}, {"!", TOK_LOGICAL_NOT}, {"~", TOK_BITWISE_NOT}, {"&", TOK_AMPERSAND}, {"|", TOK_BITWISE_OR}, {"^", TOK_XOR}, {".", TOK_DOT}};
    VF_BEGIN();
    long first = vf_range(FIRST, LAST), n = vf_range(1, 3);
    in_c[0] = 0;
    for (int i = 1; i < 3; i++) in_c[i] = vf_range(0, 2) ? ">>=<<...&&||==!=++--*/%^->()[]{},;?:~x\"'0123456789"[vf_range(0, 49)] : draw_char();
    VF_CASES(c, first, FIRST, LAST,
        if (c && !sp_letter(c) && c != '#' && c != '\'' && !sp_space(c)) VF_CASES(len, n, 1, 3,
            in_c[0] = c;
            set_text(len);
            int want = -1, want_ip = 0, fn = 0;
            for (int i = 0; i < sizeof(P) / sizeof(P[0]); i++) {
                const char *s = P[i].s;
                int l = s[1] ? s[2] ? 3 : 2 : 1;
                if (!want_ip && text[0] == s[0] && (l < 2 || text[1] == s[1]) && (l < 3 || text[2] == s[2])) { want = P[i].token; want_ip = l; }
            }
            if (sp_ddigit(c) || c == '.' && sp_ddigit(text[1])) { want = TOK_INTEGER; fn = 1; want_ip = 0; if (c == '0' && (text[1] == 'x' || text[1] == 'X')) { fn = 2; want_ip = 2; } }
            if (c == '"') { want = TOK_STRING_LITERAL; fn = 3; want_ip = 0; }
            if (want >= 0) {
#ifdef VF_CBMC
                gh_called = 0;
                VF_MUST_ACCEPT();
                next();
                VF_POST("the kind of token", gh_called == fn && (!fn || gh_at == want_ip));
#else
                VF_ASSUME(!fn || fn == 2 && sp_hex(text[2]) >= 0);
                VF_MUST_ACCEPT();
                next();
#endif
                VF_POST("the longest punctuator", cur_token == want);
                VF_POST("the punctuator is consumed", fn || ip == want_ip);
                VF_REACH();
            }));
}

// ---------------------------------------------------------------- identifiers and keywords
void h_identifier(void) {
    static const struct { const char *s; int token; } K[] = {
        {"if", TOK_IF}, {"else", TOK_ELSE}, {"signed", TOK_SIGNED}, {"unsigned", TOK_UNSIGNED}, {"char", TOK_CHAR}, {"short", TOK_SHORT}, {"int", TOK_INT}, {"long", TOK_LONG},
        {"float", TOK_FLOAT}, {"double", TOK_DOUBLE}, {"void", TOK_VOID}, {"struct", TOK_STRUCT}, {"union", TOK_UNION}, {"typedef", TOK_TYPEDEF}, {"do", TOK_DO}, {"while", TOK_WHILE},
        {"for", TOK_FOR}, {"continue", TOK_CONTINUE}, {"break", TOK_BREAK}, {"switch", TOK_SWITCH}, {"case", TOK_CASE}, {"default", TOK_DEFAULT}, {"return", TOK_RETURN},
        {"enum", TOK_ENUM}, {"sizeof", TOK_SIZEOF}, {"__attribute__", TOK_ATTRIBUTE}, {"packed", TOK_PACKED}, {"__packed__", TOK_PACKED}, {"aligned", TOK_ALIGNED}, {"__aligned__", TOK_ALIGNED},
        {"__restrict", TOK_RESTRICT}, {"restrict", TOK_RESTRICT}, {"__asm__", TOK_ASM}, {"inline", TOK_INLINE}, {"__inline", TOK_INLINE}, {"auto", TOK_AUTO}, {"register", TOK_REGISTER},
        {"static", TOK_STATIC}, {"extern", TOK_EXTERN}, {"const", TOK_CONST}, {"volatile", TOK_VOLATILE}, {"goto", TOK_GOTO}};
    VF_BEGIN();
    draw_text();
    long first = vf_range(FIRST, LAST), kw = vf_range(-1, sizeof(K) / sizeof(K[0]) - 1);   // natively often a keyword
#ifndef VF_CBMC
    if (kw >= 0) for (int i = 0; i < LEN; i++) { if (!K[kw].s[i]) break; in_c[i] = K[kw].s[i]; if (!i) first = in_c[0]; }
    VF_ASSUME(first >= FIRST && first <= LAST);
#endif
    VF_CASES(c, first, FIRST, LAST, if (sp_letter(c)) {
        in_c[0] = c;
        set_text(LEN);
        // wide literals are not identifiers
        if (!(c == 'L' && (text[1] == '"' || text[1] == '\''))) {
            int len = 0;
            for (int i = 0; i < LEN; i++) if (len == i && (sp_letter(text[i]) || sp_ddigit(text[i]))) len++;
            int want = TOK_IDENTIFIER;
            for (int j = 0; j < sizeof(K) / sizeof(K[0]); j++) if (K[j].s[0] == c) {
                int same = 1;
                for (int i = 0; i <= LEN && same; i++) { if (K[j].s[i] != (i < len ? text[i] : 0)) same = 0; if (!K[j].s[i]) break; }
                if (same) want = K[j].token;
            }
            VF_MUST_ACCEPT();
            next();
            VF_POST("identifier or keyword", cur_token == want);
            VF_POST("the identifier is consumed", ip == len);
            for (int i = 0; i <= LEN; i++) VF_POST("spelling of the identifier", cur_identifier[i] == (i < len ? text[i] : 0) || i > len);
            VF_REACH();
        }
    });
}

// ---------------------------------------------------------------- white space
void h_space(void) {
    VF_BEGIN();
    for (int i = 0; i < LEN; i++) in_c[i] = vf_range(0, 1) ? " \t\n\v\f\r"[vf_range(0, 5)] : draw_char();
    long n = vf_range(0, LEN);
    set_text(n);
    int k = 0, lines = 0;
    for (int i = 0; i < LEN; i++) if (k == i && i < n && sp_space(text[i])) { k++; lines += text[i] == '\n'; }
    VF_MUST_ACCEPT();
    skip_whitespace();
    VF_POST("white space is skipped", ip == k);
    VF_POST("lines are counted", cur_line == 1 + lines);
    VF_REACH();
}

// ---------------------------------------------------------------- long tokens: nothing outside of the buffers is written
static char long_text[MAX_IDENTIFIER_SIZE < 100 || MAX_STRING_LITERAL_SIZE < 100 ? 16 : 1];
static void long_token(int n, int quote) {
    set_text(0);
    int k = 0;
    if (quote) long_text[k++] = '"';
    for (int i = 0; i < n; i++) long_text[k++] = 'b';
    if (quote) long_text[k++] = '"';
    long_text[k] = 0;
    input = long_text; input_size = k;
}
void h_long_identifier(void) {
    static char buf[MAX_IDENTIFIER_SIZE];
    VF_BEGIN();
    for (int len = 1; len <= MAX_IDENTIFIER_SIZE; len++) {
        long_token(len, 0);
        cur_identifier = buf;
        if (len < MAX_IDENTIFIER_SIZE) { VF_MUST_ACCEPT(); } else VF_MAY_REFUSE();
        VF_REACH();
        next();
        VF_POST("an identifier that is not refused is complete", len < MAX_IDENTIFIER_SIZE && ip == len && !buf[len]);
    }
}
void h_long_string(void) {
    static int buf[MAX_STRING_LITERAL_SIZE];
    VF_BEGIN();
    for (int len = 1; len <= MAX_STRING_LITERAL_SIZE; len++) {
        long_token(len, 1);
        cur_string_literal.data = (char *) buf;
        if (len < MAX_STRING_LITERAL_SIZE) { VF_MUST_ACCEPT(); } else VF_MAY_REFUSE();
        VF_REACH();
        next();
        VF_POST("a string literal that is not refused is complete", len < MAX_STRING_LITERAL_SIZE && cur_token == TOK_STRING_LITERAL && ip == len + 2 && cur_string_literal.size == len + 1);
    }
}
