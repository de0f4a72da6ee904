/* C23: command line editing.  C24: argument splitting. */
#include "two.h"
#include "embc/cli.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>

static embc_cli_t cli, shadow;
static char out[1024]; static int outn;
static char want[1024];
static char ran[3][128]; static int nran, run_rc;
static int ncookie, pcookie, mute;

static void print(void * cookie, const char * s) {
    mc_check(cookie == &pcookie, "print with another cookie");
    int n = (int) strlen(s);
    mc_check(outn + n < (int) sizeof(out), "runaway output");
    memcpy(out + outn, s, n + 1);
    outn += n;
}
/* results an application may return: anything else than the two successes is an error */
static const int wide_rcs[] = {2, 3, 4, -2, 127, 128, 255, 256, 512, 32767, 32768, 65535, 65536, 65537, 0x1000000, 0x7fffffff, -128, -255, -256, -257, -32768, -65535, -65536, -65537, -0x7fffffff - 1, 0, -1, 1};
#define NWIDE 28
static int use_wide;
static int exec_line(void * cookie, const char * s) {
    mc_check(cookie == &ncookie, "execute with another cookie");
    mc_check(strlen(s) <= EMBC_CLI_LINE_LENGTH, "executed a line of %d characters", (int) strlen(s));
    mc_check(nran < 2, "a line was executed twice");
    strcpy(ran[nran++], s);
    static const int rcs[] = {EMBC_CLI_SUCCESS, EMBC_CLI_SUCCESS_PROMPT_ONLY, EMBC_CLI_ERROR, EMBC_CLI_ERROR_PARAMETER_VALUE};
    run_rc = use_wide ? wide_rcs[mc_choose(NWIDE)] : rcs[mc_choose(mc_arg < 2 ? 3 : 1)];
    mc_note("  executes \"%s\" -> %d", s, run_rc);
    return run_rc;
}
/* model: the visible line */
static char vis[400]; static int nv, last;

static int blank(char c) { return c == ' ' || c == '\t'; }
static int comment(char c) { return c == '#' || c == '@' || c == '%'; }
static int compact(const char * s, int n, char * d) {
    int k = 0, gap = 0;
    for (int i = 0; i < n && !comment(s[i]); ++i) {
        if (blank(s[i])) { gap = k > 0; continue; }
        if (gap) { d[k++] = ' '; gap = 0; }
        d[k++] = s[i];
    }
    d[k] = 0;
    return k;
}
static void line_end(void) {
    char c[400];
    int n = compact(vis, nv, c), cpos = 0, allblank = 1, may_run = 0, must_run = 0, may_refuse = 0, may_silent = 0;
    while (cpos < nv && !comment(vis[cpos])) { allblank &= blank(vis[cpos]); ++cpos; }
    if (nv < EMBC_CLI_LINE_LENGTH || (nv == EMBC_CLI_LINE_LENGTH && n == 0) || (cpos < EMBC_CLI_LINE_LENGTH && cpos < nv)) {
        if (n) { must_run = may_run = 1; } else { may_silent = 1; }
    } else if (nv == EMBC_CLI_LINE_LENGTH) { may_run = may_refuse = 1; }
    else { may_refuse = 1; may_silent = allblank; }
    mc_check(!must_run || nran == 1, "line \"%s\" (%d characters typed) was not executed", c, nv);
    mc_check(nran == 0 || may_run, "line of %d characters, which %s, executed \"%s\"", nv, nv > EMBC_CLI_LINE_LENGTH ? "is too long" : "is blank", ran[0]);
    if (nran) {
        mc_check(0 == strcmp(ran[0], c), "executed \"%s\", the visible line is \"%s\"", ran[0], c);
        strcpy(want, "\n");
        if (run_rc != EMBC_CLI_SUCCESS_PROMPT_ONLY) {
            if (cli.verbose == EMBC_CLI_VERBOSE_FULL) { strcat(want, c); strcat(want, "\n"); }
            strcat(want, run_rc == EMBC_CLI_SUCCESS ? "<OK>" : "<ERR>");
        }
        strcat(want, "p> ");
        mc_check(mute || 0 == strcmp(out, want), "printed \"%s\", expected \"%s\"", out, want);
    } else {
        int silent = 0 == strcmp(out, "\np> "), refused = 0 == strcmp(out, "\nMaximum command line length reached\np> ");
        mc_check(mute || (silent && may_silent) || (refused && may_refuse), "printed \"%s\" for a line of %d characters", out, nv);
    }
    nv = 0;
}
static void type(char ch) {
    mc_op("type 0x%02x '%c'", (uint8_t) ch, ch >= ' ' && ch < 127 ? ch : '.');
    outn = 0; out[0] = 0; nran = 0; want[0] = 0;
    embc_cli_insert_char(&cli, ch);
    int end = 0;
    if (ch == 8 || ch == 127) {
        if (nv) { --nv; if (cli.echo_mode != EMBC_CLI_ECHO_OFF) { strcpy(want, "\b \b"); } }
    } else if (ch == '\r') { end = 1; }
    else if (ch == '\n') { end = last != '\r'; }
    else {
        vis[nv++] = ch;
        if (cli.echo_mode == EMBC_CLI_ECHO_ON) { want[0] = ch; want[1] = 0; }
        if (cli.echo_mode == EMBC_CLI_ECHO_USER_CHAR) { strcpy(want, "*"); }
    }
    last = ch;
    if (end) { line_end(); }
    else {
        mc_check(nran == 0, "executed \"%s\" without a line end", ran[0]);
        mc_check(mute || 0 == strcmp(out, want), "printed \"%s\", expected \"%s\"", out, want);
    }
    mc_check(cli.cmdlen >= 0 && cli.echo_mode == shadow.echo_mode && cli.verbose == shadow.verbose && cli.print == shadow.print && cli.execute_line == shadow.execute_line
        && cli.execute_cookie == shadow.execute_cookie && cli.print_cookie == shadow.print_cookie && 0 == strcmp(cli.prompt, "p> "), "a field of the instance was overwritten");
}
static void setup(int echo, int verbose) {
    memset(&cli, 0, sizeof(cli));
    strcpy(cli.prompt, "p> ");
    cli.print = mute ? 0 : print; cli.print_cookie = &pcookie;
    cli.execute_line = exec_line; cli.execute_cookie = &ncookie;
    cli.response_success = "<OK>"; cli.response_error = "<ERR>";
    outn = 0; nran = 0; nv = 0; last = 0;
    mc_op("initialize, echo %d, verbose %d", echo, verbose);
    embc_cli_initialize(&cli);
    mc_check(mute || 0 == strcmp(out, "p> "), "initialize printed \"%s\"", out);
    embc_cli_set_echo(&cli, (enum embc_cli_echo_mode_e) echo, echo == EMBC_CLI_ECHO_USER_CHAR ? '*' : 0);
    embc_cli_set_verbose(&cli, (enum embc_cli_verbose_mode_e) verbose);
    shadow = cli;
}
static void keys_setup(void) { int e = mc_choose(3), v = mc_choose(2); setup(e, v); }
static void keys_run(void) {
    static const char k0[] = "ab \t#\b\r\n", k1[] = "a @%\x7f\r";
    const char * k = mc_arg == 0 ? k0 : k1;
    int n = (int) strlen(k);
    setup(mc_choose(3), mc_choose(2));
    int depth = mc_arg == 0 ? mc_tier(6, 7) : mc_tier(6, 8);
    for (int d = 0; d < depth; ++d) {
        type(k[mc_choose(n)]);
        mc_state(mc_mix(mc_hash(nv, vis, nv), last == '\r'));
    }
    type('\r'); type('z'); type('\r');
}
/* around the maximum length */
static void long_run(void) {
    static const char * const fill[] = {"x", "x ", "x  y   ", " ", " #c", "0123456789012345678901234567890123456789# z", "abcdefghij", "\t \t.", "0123456789012345678901234567890123456789012345678901234567890 #"};
    static const char k[] = "a #\b\r";
    setup(mc_choose(3), mc_choose(2));
    int f = mc_choose(9), n = 56 + mc_choose(mc_tier(14, 20)), fl = (int) strlen(fill[f]);
    if (mc_choose(2)) { n += 200; }
    for (int i = 0; i < n; ++i) { type(fill[f][i % fl]); }
    static const int back[] = {0, 1, 2, 3, 5, 8, 12, 60, 300};
    int nb = back[mc_choose(9)];
    for (int i = 0; i < nb; ++i) { type('\b'); }
    int depth = mc_tier(3, 5);
    for (int d = 0; d < depth; ++d) { type(k[mc_choose(5)]); }
    mc_state(mc_hash(nv, vis, nv));
    type('\r');
    type('o'); type('k'); type('\r');
}
static void results_run(void) {
    use_wide = 1;
    keys_setup();
    type('a'); type('\r'); type('b'); type('\r');
    mc_state(run_rc);
}
/* every byte value except NUL as a key */
static void bytes_run(void) {
    setup(mc_choose(3), 0);
    int c = 1 + mc_choose(255), c2 = 1 + mc_choose(255);
    type('a'); type((char) c); type((char) c2); type('z'); type('\r');
}
/* the console is optional: without a print function the same lines are executed */
static void mute_run(void) {
    static const char k[] = "a \b\r";
    mute = 1;
    keys_setup();
    int n = 60 * mc_choose(2);
    for (int i = 0; i < n; ++i) { type('x'); }
    for (int d = 0; d < mc_tier(6, 8); ++d) { type(k[mc_choose(4)]); }
    type('\r'); type('z'); type('\r');
}
/* echo, verbosity and initialization changed in the middle of a line */
static void modes_run(void) {
    static const char k[] = "a \b\r";
    keys_setup();
    for (int d = 0; d < mc_tier(5, 6); ++d) {
        int c = mc_choose(10);
        if (c < 4) { type(k[c]); continue; }
        if (c < 7) {
            mc_op("echo mode %d", c - 4);
            embc_cli_set_echo(&cli, (enum embc_cli_echo_mode_e) (c - 4), '*');
            shadow.echo_mode = (enum embc_cli_echo_mode_e) (c - 4);
            mc_check(cli.echo_mode == shadow.echo_mode, "echo mode not set");
        } else if (c < 9) {
            mc_op("verbose %d", c - 7);
            embc_cli_set_verbose(&cli, (enum embc_cli_verbose_mode_e) (c - 7));
            shadow.verbose = (enum embc_cli_verbose_mode_e) (c - 7);
            mc_check(cli.verbose == shadow.verbose, "verbose mode not set");
        } else {
            mc_op("initialize");
            outn = 0; out[0] = 0;
            embc_cli_initialize(&cli);
            mc_check(0 == strcmp(out, "p> "), "initialize printed \"%s\"", out);
            nv = 0;
            if (last == '\r') { type('y'); }   /* whether a line feed now ends an empty line is not specified */
        }
        mc_state(mc_mix(mc_hash(nv, vis, nv), c));
    }
    type('\r'); type('z'); type('\r');
}
/* two consoles */
static embc_cli_t t_cli[2]; static int t_args, t_cookie[2];
static void t_print(void * cookie, const char * s) { mc_check(cookie == &t_cookie[two_i], "printed to the other console"); two_bytes(s, (int) strlen(s)); }
static int t_line(void * cookie, const char * s) { mc_check(cookie == &t_cookie[two_i], "executed for the other console"); two_bytes(s, (int) strlen(s)); return s[0] == 'e'; }
static int t_argv(void * cookie, int argc, char * argv[]) {
    mc_check(cookie == &t_cookie[two_i], "executed for the other console");
    two_put(argc);
    for (int k = 0; k < argc; ++k) { two_bytes(argv[k], (int) strlen(argv[k])); }
    return argv[0][0] == 'e';
}
static void t_step(int i, int s, int k) {
    static const char * const text[3][6] = {{"ab", "\r", "\n", "c d\x08", "\n", "e\r"}, {"\n", "x,y # z", "\r", "\r\n", "  e", "\r"}, {"ab\x7f", "c\r", "a b  c d", "\n", "\r", "#\n"}};
    embc_cli_t * c = &t_cli[i];
    if (k == 7) { return; }
    if (k == 0) {
        memset(c, 0, sizeof(*c));
        strcpy(c->prompt, i ? "1> " : "0> "); c->response_success = i ? "ok1" : "ok0"; c->response_error = "bad";
        c->print = t_print; c->print_cookie = c->execute_cookie = &t_cookie[i];
        if (t_args) { c->execute_args = t_argv; } else { c->execute_line = t_line; }
        embc_cli_initialize(c);
        embc_cli_set_echo(c, i ? EMBC_CLI_ECHO_USER_CHAR : EMBC_CLI_ECHO_ON, '*');
        embc_cli_set_verbose(c, s == 1 ? EMBC_CLI_VERBOSE_FULL : 0);
        return;
    }
    for (const char * p = text[s][k - 1]; *p; ++p) { embc_cli_insert_char(c, *p); }
}
static void t_run(void) { static const struct two_s w = {3, 8, t_step}; t_args = mc_arg; two_run_(&w); }
static void null_run(void) {
    mc_op("null arguments");
    volatile int x = 0;
    mc_check(MC_FATAL(embc_cli_initialize(0)) && MC_FATAL(embc_cli_set_echo(0, 0, 0)) && MC_FATAL(embc_cli_set_verbose(0, 0)) && MC_FATAL(embc_cli_insert_char(0, 'a')) && MC_FATAL(x = embc_cli_line_parser(0, "a")), "a null console was accepted");
    (void) x;
}
static const struct mc_scenario c23[] = {
    {"null", null_run},
    {"two consoles", t_run, 0, 0, 0, 0},
    {"keys", keys_run, 0, 0, 0, 0}, {"other keys", keys_run, 0, 0, 1, 0}, {"line length", long_run, 0, 0, 2, 0}, {"all bytes", bytes_run, 0, 0, 3, 0}, {"no console", mute_run, 0, 0, 1, 0}, {"modes", modes_run, 0, 0, 1, 0}, {"results", results_run, 0, 0, 0, 0},
    {0}
};

/* ------------------------------------------------------------ C24 */
static char args[24][80]; static int nargs, calls, args_rc;
static int exec_args(void * cookie, int argc, char * argv[]) {
    mc_check(cookie == &ncookie, "execute_args called with another cookie");
    ++calls;
    nargs = argc;
    mc_check(argc >= 1 && argc <= EMBC_CLI_MAX_ARGS, "argc is %d", argc);
    for (int i = 0; i < argc; ++i) {
        mc_check(argv[i] && strlen(argv[i]) < 80, "argv[%d] is not a string", i);
        strcpy(args[i], argv[i]);
    }
    memset(argv[argc - 1], 'Z', strlen(argv[argc - 1]));   /* argv belongs to the callee */
    static const int rcs[] = {EMBC_CLI_SUCCESS, EMBC_CLI_SUCCESS_PROMPT_ONLY, EMBC_CLI_ERROR_PARAMETER_COUNT};
    args_rc = use_wide ? wide_rcs[mc_choose(NWIDE)] : rcs[mc_choose(mc_arg == 1 ? 1 : 3)];
    return args_rc;
}
static int sep(char c) { return c == ' ' || c == '\t' || c == ','; }
static char * page_end(void) {
    static MC_KEEP char * page;
    if (!page) {
        page = mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(page + 4096, 4096, PROT_NONE);
    }
    return page + 4096;
}
static void split(const char * s) {
    char e[40][80]; int ne = 0;
    for (int i = 0; s[i];) {
        if (sep(s[i])) { ++i; continue; }
        int k = 0;
        while (s[i] && !sep(s[i])) { e[ne][k++] = s[i++]; }
        e[ne++][k] = 0;
    }
    int rc;
    calls = 0; nargs = 0; args_rc = 77;
    if (mc_choose(2)) {                 /* direct call, text at the end of readable memory */
        mc_op("split \"%s\"", s);
        size_t n = strlen(s) + 1;
        char * p = page_end() - n;
        memcpy(p, s, n);
        memset(&cli, 0, sizeof(cli));
        cli.execute_args = exec_args; cli.execute_cookie = &ncookie;
        rc = embc_cli_line_parser(&cli, p);
        mc_check(0 == memcmp(p, s, n), "the command line was changed");
    } else {                            /* through the line editor */
        mc_op("type \"%s\"", s);
        if (strlen(s) >= EMBC_CLI_LINE_LENGTH) { mc_prune(); }
        memset(&cli, 0, sizeof(cli));
        cli.execute_args = exec_args; cli.execute_cookie = &ncookie;
        cli.print = print; cli.print_cookie = &pcookie;
        cli.response_success = "<OK>"; cli.response_error = "<ERR>";
        embc_cli_initialize(&cli);
        if (mc_choose(2)) { embc_cli_initialize(&cli); }
        outn = 0; out[0] = 0;
        for (const char * p = s; *p; ++p) { embc_cli_insert_char(&cli, *p); }
        embc_cli_insert_char(&cli, '\r');
        rc = strstr(out, "<OK>") ? 0 : strstr(out, "<ERR>") ? 1 : -1;
        if (ne > EMBC_CLI_MAX_ARGS) { mc_check(rc == 1, "too many arguments were not reported"); rc = EMBC_CLI_ERROR_PARAMETER_VALUE; }
        else if (ne) { mc_check(rc == (args_rc == 0 ? 0 : args_rc == -1 ? -1 : 1), "printed \"%s\" after result %d", out, args_rc); rc = args_rc; }
        else { mc_check(rc <= 0, "a line without arguments is an error"); rc = 0; }
    }
    if (ne == 0) { mc_check(calls == 0 && rc == EMBC_CLI_SUCCESS, "blank line: %d calls, result %d", calls, rc); }
    else if (ne > EMBC_CLI_MAX_ARGS) { mc_check(calls == 0 && rc == EMBC_CLI_ERROR_PARAMETER_VALUE, "%d arguments: %d calls, result %d", ne, calls, rc); }
    else {
        mc_check(calls == 1, "%d calls of execute_args", calls);
        mc_check(rc == args_rc, "result %d, execute_args returned %d", rc, args_rc);
        mc_check(nargs == ne, "%d arguments, expected %d", nargs, ne);
        for (int i = 0; i < ne; ++i) { mc_check(0 == strcmp(args[i], e[i]), "argument %d is \"%s\", expected \"%s\"", i, args[i], e[i]); }
    }
    mc_state(ne);
}
static void args_results_run(void) { use_wide = 1; split("a"); split(" b, c"); }
static void text_run(void) {
    static const char k[] = "ab \t,";
    char s[16];
    int n = mc_tier(8, 10), i = 0;
    for (; i < n; ++i) { int c = mc_choose(6); if (c == 5) { break; } s[i] = k[c]; }
    s[i] = 0;
    split(s);
}
static void count_run(void) {
    static const char * const seps[] = {" ", ",", "\t", ", ", ",,"};
    char s[200]; int k = 0;
    int n = mc_choose(24), sp = mc_choose(5), len = 1 + mc_choose(3), tail = mc_choose(3);
    for (int i = 0; i < n; ++i) {
        if (i) { k += sprintf(s + k, "%s", seps[sp]); }
        for (int j = 0; j < len; ++j) { s[k++] = (char) ('a' + (i + j) % 26); }
    }
    s[k] = 0;
    if (tail == 1) { strcat(s, seps[sp]); }
    if (tail == 2) { memmove(s + 1, s, strlen(s) + 1); s[0] = ','; }
    if (strlen(s) > EMBC_CLI_LINE_LENGTH) { mc_prune(); }
    split(s);
}
static void length_run(void) {
    char s[200];
    int a = mc_choose(EMBC_CLI_LINE_LENGTH + 1), b = mc_choose(4), k = 0;
    for (int i = 0; i < a; ++i) { s[k++] = (char) ('a' + i % 26); }
    if (b) { s[k++] = ','; for (int i = 0; i < b; ++i) { s[k++] = 'Z'; } }
    s[k] = 0;
    if (k > EMBC_CLI_LINE_LENGTH) { mc_prune(); }
    split(s);
}
static void chars_run(void) {
    char s[8] = {'a', 0, 'b', 0, 0};
    int c = 1 + mc_choose(255);
    if (c == 8 || c == 127 || c == '\r' || c == '\n' || comment((char) c)) { mc_prune(); }
    s[1] = (char) c; s[3] = mc_choose(2) ? (char) c : 0;
    split(s);
}
/* neither executor nor console: nothing to call, and nothing happens */
static void bare_run(void) {
    static const char k[] = "a, \b\r";
    memset(&cli, 0, sizeof(cli));
    cli.response_success = "<OK>"; cli.response_error = "<ERR>";
    int con = mc_choose(2);
    calls = 0;
    if (con) { cli.print = print; cli.print_cookie = &pcookie; }
    if (mc_choose(2)) { cli.execute_args = exec_args; cli.execute_cookie = &ncookie; }
    embc_cli_initialize(&cli);
    int line = 0, want_calls = 0, word = 0;
    for (int d = 0; d < mc_tier(6, 8); ++d) {
        char c = k[mc_choose(5)];
        mc_op("type '%c'", c == '\b' ? '<' : c == '\r' ? '!' : c);
        outn = 0;
        embc_cli_insert_char(&cli, c);
        if (c == '\r') { if (word) { ++want_calls; } word = line = 0; }
        else if (c == '\b') { if (line) { --line; word -= vis[line] == 'a'; } }
        else { vis[line++] = c; word += c == 'a'; }
    }
    if (cli.execute_args) { mc_check(calls == want_calls, "%d calls, expected %d", calls, want_calls); }
    int rc = embc_cli_line_parser(&cli, " ,");
    mc_check(rc == EMBC_CLI_SUCCESS, "blank line: result %d", rc);
    if (!cli.execute_args) { rc = embc_cli_line_parser(&cli, "a"); mc_check(rc != EMBC_CLI_SUCCESS, "a command without an executor succeeded"); }
}
/* a command that executes another command line keeps its own arguments */
static embc_cli_t nest_cli[2]; static int nest_depth, nest_max;
static int nest_args(void * cookie, int argc, char * argv[]) {
    static const char * const lines[] = {"first second,third", "a\tb", "longer arguments than before 1 2 3", "z"};
    int d = nest_depth++;
    mc_check(cookie == &ncookie, "cookie");
    char copy[16][40]; char * at[16];
    for (int i = 0; i < argc; ++i) { at[i] = argv[i]; strcpy(copy[i], argv[i]); }
    if (d < nest_max) {
        int l = mc_choose(4);
        mc_op("command at depth %d executes \"%s\"", d, lines[l]);
        int rc = embc_cli_line_parser(&nest_cli[mc_choose(2)], lines[l]);
        mc_check(rc == EMBC_CLI_SUCCESS, "result %d", rc);
    }
    for (int i = 0; i < argc; ++i) { mc_check(argv[i] == at[i] && 0 == strcmp(argv[i], copy[i]), "argument %d of the outer command changed to \"%s\"", i, argv[i]); }
    mc_state(mc_mix(d, argc));
    return EMBC_CLI_SUCCESS;
}
static void nest_run(void) {
    for (int i = 0; i < 2; ++i) { memset(&nest_cli[i], 0, sizeof(nest_cli[i])); nest_cli[i].execute_args = nest_args; nest_cli[i].execute_cookie = &ncookie; }
    nest_depth = 0; nest_max = 3;
    int rc = embc_cli_line_parser(&nest_cli[0], mc_choose(2) ? "run x yy zzz" : "run");
    mc_check(rc == EMBC_CLI_SUCCESS && nest_depth == 4, "result %d, %d commands", rc, nest_depth);
}
static const struct mc_scenario c24[] = {
    {"nested", nest_run, 0, 0, 0, 0}, {"two consoles", t_run, 0, 0, 1, 0},
    {"texts", text_run, 0, 0, 1, 0}, {"argument counts", count_run, 0, 0, 0, 0}, {"lengths", length_run, 0, 0, 0, 0}, {"all characters", chars_run, 0, 0, 0, 0}, {"bare", bare_run, 0, 0, 1, 0}, {"results", args_results_run, 0, 0, 0, 0},
    {0}
};
const struct mc_property mc_properties[] = {
    {"C23", c23},
    {"C24", c24},
    {0}
};
