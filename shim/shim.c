/* shim.c - linked into an instrumented build of the real daemon.
 *
 * Its definitions of libc functions take precedence over libc's for the daemon
 * and for glib alike.  They
 *   - confine every path to a scratch root (VP_ROOT),
 *   - run the daemon's main loop in virtual time, performing the actions of a
 *     scenario (VP_SCEN) when their time comes,
 *   - record every call as an event in a trace (VP_TRACE),
 *   - inject faults, kills, signals and delays at calls selected by rules.
 * Readahead, FIBMAP, nice and the like are stand-ins that only record.
 */
#define _GNU_SOURCE
#define _LARGEFILE64_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <linux/fs.h>

#define R(fn) __extension__({ static __typeof__(&fn) p_; if (!p_) p_ = (__typeof__(&fn)) dlsym (RTLD_NEXT, #fn); p_; })
#define TRACE_FD 900
#define MAXFD 1024
#define PATHLEN 4352

extern size_t __sanitizer_get_current_allocated_bytes (void) __attribute__ ((weak));
extern int __lsan_do_recoverable_leak_check (void) __attribute__ ((weak));
extern void __lsan_disable (void) __attribute__ ((weak));
extern void __lsan_enable (void) __attribute__ ((weak));

static int inited, in_child, quiet;
static char root[1024];
static size_t rootlen;
static int fakepid = 4242;
static pid_t mainpid;
static long long now_us = 1000LL * 1000000; /* monotonic */
static const long long epoch = 1700000000LL - 1000;
static long ncall;
static char *fdpath[MAXFD];
static char *fdbuf[MAXFD]; static size_t fdcap[MAXFD];
static unsigned char fdwr[MAXFD];

static void init (void);

/* ---------- trace ---------- */

static size_t
esc (char *o, size_t n, const char *s)
{
  size_t k = 0;
  static const char hex[] = "0123456789abcdef";
  if (!s) s = "(null)";
  if (!*s && n > 3) { memcpy (o, "%e", 2); k = 2; }
  for (; *s && k + 4 < n; s++) {
    unsigned char c = *s;
    if (c <= 32 || c == '%' || c >= 127) {
      o[k++] = '%'; o[k++] = hex[c >> 4]; o[k++] = hex[c & 15];
    } else
      o[k++] = c;
  }
  o[k] = 0;
  return k;
}

#define TRACE_MAX (16L << 20)
static long written;

/* ev ("name", "sdl..", ...): s string, d int, l long long */
static void
ev (const char *name, const char *fmt, ...)
{
  char b[3 * PATHLEN * 2];
  size_t k;
  int e = errno;
  va_list ap;
  if (!inited || quiet) return;
  k = snprintf (b, sizeof b, "%lld %ld %s", now_us, in_child ? (long) syscall (SYS_getpid) : 0L, name);
  va_start (ap, fmt);
  for (; *fmt; fmt++) {
    b[k++] = ' ';
    if (*fmt == 's') k += esc (b + k, 3 * PATHLEN, va_arg (ap, const char *));
    else if (*fmt == 'd') k += sprintf (b + k, "%d", va_arg (ap, int));
    else if (*fmt == 'l') k += sprintf (b + k, "%lld", va_arg (ap, long long));
  }
  va_end (ap);
  b[k++] = '\n';
  syscall (SYS_write, TRACE_FD, b, k);
  if ((written += k) > TRACE_MAX) { /* it goes round and round */
    static const char m[] = "0 0 STUCK\n";
    syscall (SYS_write, TRACE_FD, m, sizeof m - 1);
    syscall (SYS_exit_group, 78);
  }
  errno = e;
}

/* ---------- paths ---------- */

/* host path for a path as the daemon sees it */
static const char *
rw (const char *p, char *buf)
{
  if (!inited || !p) return p;
  if (p[0] != '/') return p;
  if (!strcmp (p, "/dev/null")) return p;
  if (!strncmp (p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen])) return p;
  if (strlen (p) + rootlen + 1 > PATHLEN) { /* too long for the kernel as well */
    memset (buf, 'x', PATHLEN - 1); buf[PATHLEN - 1] = 0;
    return buf;
  }
  memcpy (buf, root, rootlen);
  strcpy (buf + rootlen, p);
  return buf;
}

/* ---------- memory of the shim's own, not part of what is measured ---------- */

static char *
own (size_t n)
{
  static char *at; static size_t left;
  char *p;
  n = (n + 15) & ~(size_t) 15;
  if (n > left) {
    left = n > (1 << 20) ? n : 1 << 20;
    at = (char *) syscall (SYS_mmap, NULL, left, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0L);
  }
  p = at; at += n; left -= n;
  return p;
}
static char *own_dup (const char *s) { size_t n = strlen (s) + 1; return memcpy (own (n), s, n); }

/* ---------- tables ---------- */

typedef struct { char *path; long long v; } ent_t;
static ent_t inos[4096], blks[4096], bszs[4096];
static int ninos, nblks, nbszs;

static long long *
tab (ent_t *t, int *n, const char *path, int add)
{
  int i;
  for (i = 0; i < *n; i++)
    if (!strcmp (t[i].path, path)) return &t[i].v;
  if (!add || *n >= 4096) return NULL;
  t[*n].path = own_dup (path);
  return &t[(*n)++].v;
}

/* ---------- rules ---------- */

enum { M_NONE, M_ERR, M_SHORT, M_KILLB, M_KILLA, M_SIG, M_DELAY, M_DO, M_EXIT };
typedef struct { char fn[32]; char *path; long nth; long count; long seen; int mode; long arg; int on; } rule_t;
static rule_t rules[256];
static int nrules;
static int cur_mode; static long cur_arg;

typedef struct { long long t; int group; char *cmd; } action_t;
static action_t *actions;
static int nactions, next_action;
static void do_action (char *cmd);

static void
do_group (int g)
{
  int i;
  for (i = 0; i < nactions; i++)
    if (actions[i].group == g) {
      char *c = strdup (actions[i].cmd);
      do_action (c);
      free (c);
    }
}

/* is called at the beginning of each intercepted call; returns M_ERR with errno
 * set, M_SHORT, or M_NONE.  A pending kill-after is kept in cur_mode. */
static int
enter (const char *fn, const char *path)
{
  int i, ret = M_NONE;
  char name[40];
  if (!inited || quiet) return M_NONE;
  ncall++;
  cur_mode = M_NONE;
  snprintf (name, sizeof name, "%s%s", in_child ? "c:" : "", fn);
  for (i = 0; i < nrules; i++) {
    rule_t *r = &rules[i];
    size_t l;
    if (!r->on) continue;
    if (r->fn[0] == '*' && !r->fn[1]) { if (in_child) continue; }
    else if (strcmp (r->fn, name)) continue;
    if (r->path) {
      if (!path) continue;
      l = strlen (r->path);
      if (l && r->path[l - 1] == '*') { if (strncmp (r->path, path, l - 1)) continue; }
      else if (strcmp (r->path, path)) continue;
    }
    r->seen++;
    if (r->seen < r->nth || r->seen >= r->nth + r->count) continue;
    ev ("INJ", "sssdl", name, path ? path : "-", r->fn, r->mode, (long long) r->arg);
    switch (r->mode) {
      case M_ERR: errno = r->arg; ret = M_ERR; break;
      case M_SHORT: ret = M_SHORT; break;
      case M_KILLB: syscall (SYS_kill, syscall (SYS_getpid), SIGKILL); break;
      case M_KILLA: cur_mode = M_KILLA; break;
      case M_SIG:
	if (in_child && (r->arg == SIGBUS || r->arg == SIGSEGV || r->arg == SIGABRT)) {
	  /* the death of a child is meant, not a report of the sanitizer */
	  unsigned long act[4] = { 0, 0, 0, 0 };
	  syscall (SYS_rt_sigaction, (int) r->arg, act, NULL, 8);
	}
	syscall (SYS_kill, syscall (SYS_getpid), (int) r->arg);
	break;
      case M_DELAY: { struct timespec ts = { r->arg / 1000000, (r->arg % 1000000) * 1000 };
		      syscall (SYS_nanosleep, &ts, NULL); break; }
      case M_DO: { int q = quiet; quiet = 1; do_group (r->arg); quiet = q; break; }
      case M_EXIT: syscall (SYS_exit_group, (int) r->arg); break;
    }
  }
  if (ret == M_ERR) {
    /* errno must survive */
    for (i = 0; i < nrules; i++) ;
  }
  return ret;
}

static void
leave (void)
{
  if (cur_mode == M_KILLA) syscall (SYS_kill, syscall (SYS_getpid), SIGKILL);
}

/* ---------- actions ---------- */

static char *
word (char **s)
{
  char *b, *o, *p;
  while (**s == ' ') (*s)++;
  if (!**s) return NULL;
  b = *s;
  while (**s && **s != ' ') (*s)++;
  if (**s) *(*s)++ = 0;
  for (p = o = b; *p; p++) {
    if (p == b && *p == '%' && p[1] == 'e' && !p[2]) { p++; continue; }
    if (*p == '%' && p[1] && p[2]) {
      char h[3] = { p[1], p[2], 0 };
      *o++ = strtol (h, NULL, 16);
      p += 2;
    } else
      *o++ = *p;
  }
  *o = 0;
  return b;
}

static void
hostpath (char *o, const char *p)
{
  if (strstr (p, "/../") || strlen (p) > PATHLEN - rootlen - 1) { o[0] = 0; return; }
  if (!strncmp (p, root, rootlen) && (p[rootlen] == '/')) { strcpy (o, p); return; }
  memcpy (o, root, rootlen);
  strcpy (o + rootlen, p);
}

static void
put (const char *hp, const char *content, size_t len, int mode)
{
  int fd = syscall (SYS_openat, AT_FDCWD, hp, O_WRONLY | O_CREAT | O_TRUNC | O_NOFOLLOW, mode);
  if (fd < 0) return;
  while (len > 0) {
    long n = syscall (SYS_write, fd, content, len);
    if (n <= 0) break;
    content += n; len -= n;
  }
  syscall (SYS_close, fd);
}

static void
copyfile (const char *from, const char *to)
{
  static char b[65536];
  int in = syscall (SYS_openat, AT_FDCWD, from, O_RDONLY, 0), out;
  long n;
  if (in < 0) return;
  out = syscall (SYS_openat, AT_FDCWD, to, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  while (out >= 0 && (n = syscall (SYS_read, in, b, sizeof b)) > 0)
    syscall (SYS_write, out, b, n);
  if (out >= 0) syscall (SYS_close, out);
  syscall (SYS_close, in);
}

static int
openfds (void)
{
  int i, n = 0;
  for (i = 0; i < MAXFD; i++)
    if (i != TRACE_FD && syscall (SYS_fcntl, i, F_GETFD) >= 0) n++;
  return n;
}

static void
do_action (char *s)
{
  char *cmd = word (&s);
  char a[PATHLEN], b[PATHLEN];
  if (!cmd) return;
  if (!strcmp (cmd, "put")) { /* put PATH MODE CONTENT */
    char *p = word (&s), *m = word (&s), *c = word (&s);
    hostpath (a, p);
    put (a, c ? c : "", c ? strlen (c) : 0, strtol (m, NULL, 8));
  } else if (!strcmp (cmd, "cp")) { /* cp HOSTFILE PATH : atomically in place */
    char *p = word (&s), *q = word (&s);
    hostpath (a, p); hostpath (b, q);
    copyfile (a, b);
  } else if (!strcmp (cmd, "proc")) { /* proc PID EXE MAPSFILE(or -) */
    char *pid = word (&s), *exe = word (&s), *maps = word (&s);
    snprintf (a, sizeof a, "%s/proc/%s", root, pid);
    syscall (SYS_mkdir, a, 0755);
    snprintf (a, sizeof a, "%s/proc/%s/exe", root, pid);
    syscall (SYS_unlink, a);
    if (exe && *exe) syscall (SYS_symlink, exe, a);
    snprintf (a, sizeof a, "%s/proc/%s/maps", root, pid);
    if (maps && strcmp (maps, "-")) { hostpath (b, maps); copyfile (b, a); }
  } else if (!strcmp (cmd, "rmproc")) {
    char *pid = word (&s);
    snprintf (a, sizeof a, "%s/proc/%s/exe", root, pid); syscall (SYS_unlink, a);
    snprintf (a, sizeof a, "%s/proc/%s/maps", root, pid); syscall (SYS_unlink, a);
    snprintf (a, sizeof a, "%s/proc/%s", root, pid); syscall (SYS_rmdir, a);
  } else if (!strcmp (cmd, "rm")) {
    hostpath (a, word (&s));
    if (syscall (SYS_unlink, a) < 0) syscall (SYS_rmdir, a);
  } else if (!strcmp (cmd, "mkdir")) {
    hostpath (a, word (&s)); syscall (SYS_mkdir, a, 0755);
  } else if (!strcmp (cmd, "fifo")) {
    hostpath (a, word (&s)); syscall (SYS_mknod, a, S_IFIFO | 0644, 0);
  } else if (!strcmp (cmd, "lnk")) { /* lnk PATH TARGET */
    char *p = word (&s), *t = word (&s);
    hostpath (a, p); syscall (SYS_symlink, t, a);
  } else if (!strcmp (cmd, "mv")) {
    char *p = word (&s), *t = word (&s);
    hostpath (a, p); hostpath (b, t); syscall (SYS_rename, a, b);
  } else if (!strcmp (cmd, "chmod")) {
    char *p = word (&s), *m = word (&s);
    hostpath (a, p); syscall (SYS_chmod, a, strtol (m, NULL, 8));
  } else if (!strcmp (cmd, "snap")) { /* snap PATH TO */
    char *p = word (&s), *t = word (&s);
    hostpath (a, p); hostpath (b, t); copyfile (a, b);
    ev ("SNAP", "s", t);
  } else if (!strcmp (cmd, "sig")) {
    int n = atoi (word (&s)), times = s && *s ? atoi (word (&s)) : 1;
    ev ("SIG", "d", n);
    while (times-- > 0)
      syscall (SYS_kill, syscall (SYS_getpid), n);
  } else if (!strcmp (cmd, "mark")) {
    ev ("MARK", "s", word (&s));
  } else if (!strcmp (cmd, "self")) { /* where the daemon stands: session leader, directory, umask, streams 0 to 2 */
    char cwd[4096], l[3][4096], q[64];
    int i, m = syscall (SYS_umask, 0);
    syscall (SYS_umask, m);
    if (syscall (SYS_getcwd, cwd, sizeof cwd) < 0) strcpy (cwd, "?");
    for (i = 0; i < 3; i++) {
      long n;
      snprintf (q, sizeof q, "/proc/self/fd/%d", i);
      n = syscall (SYS_readlink, q, l[i], sizeof l[i] - 1);
      l[i][n < 0 ? 0 : n] = 0;
    }
    ev ("SELF", "ddssss", (int) (syscall (SYS_getsid, 0) == syscall (SYS_getpid)), m, cwd, l[0], l[1], l[2]);
  } else if (!strcmp (cmd, "mem")) {
    ev ("MEM", "ld", __sanitizer_get_current_allocated_bytes ? (long long) __sanitizer_get_current_allocated_bytes () : -1LL, openfds ());
  } else if (!strcmp (cmd, "ino")) {
    char *p = word (&s), *v = word (&s);
    long long *e = tab (inos, &ninos, p, 1); if (e) *e = atoll (v);
  } else if (!strcmp (cmd, "blk")) {
    char *p = word (&s), *v = word (&s);
    long long *e = tab (blks, &nblks, p, 1); if (e) *e = atoll (v);
  } else if (!strcmp (cmd, "bsz")) { /* size of the blocks of its file system */
    char *p = word (&s), *v = word (&s);
    long long *e = tab (bszs, &nbszs, p, 1); if (e) *e = atoll (v);
  } else if (!strcmp (cmd, "rule")) { /* rule FN PATH|- NTH COUNT MODE ARG */
    char *fn = word (&s), *p = word (&s), *n = word (&s), *c = word (&s), *m = word (&s), *g = word (&s);
    static const char *modes[] = { "none", "err", "short", "killb", "killa", "sig", "delay", "do", "exit", NULL };
    rule_t *r;
    int i, k;
    for (k = 0; k < nrules && rules[k].on; k++)
      ;
    if (k >= 256) return;
    r = &rules[k];
    memset (r, 0, sizeof *r);
    snprintf (r->fn, sizeof r->fn, "%s", fn);
    r->path = strcmp (p, "-") ? own_dup (p) : NULL;
    r->nth = atol (n); r->count = atol (c);
    for (i = 0; modes[i]; i++) if (!strcmp (modes[i], m)) r->mode = i;
    r->arg = g ? atol (g) : 0;
    r->on = 1;
    if (k == nrules) nrules++;
  } else if (!strcmp (cmd, "norules")) {
    int i;
    for (i = 0; i < nrules; i++) rules[i].on = 0;
  } else if (!strcmp (cmd, "quit")) {
    ev ("FORCED_QUIT", "");
    syscall (SYS_exit_group, 77);
  }
}

/* ---------- init ---------- */

static void
init (void)
{
  const char *e;
  char *buf;
  long n, k;
  int fd, cap = 0;
  if (inited) return;
  e = getenv ("VP_ROOT");
  if (!e) return;
  snprintf (root, sizeof root, "%s", e);
  rootlen = strlen (root);
  if ((e = getenv ("VP_PID"))) fakepid = atoi (e);
  e = getenv ("VP_TRACE");
  fd = syscall (SYS_openat, AT_FDCWD, e ? e : "/dev/null", O_WRONLY | O_CREAT | O_APPEND, 0600);
  { struct rlimit rl = { MAXFD, MAXFD }; setrlimit (RLIMIT_NOFILE, &rl); }
  syscall (SYS_dup3, fd, TRACE_FD, O_CLOEXEC);
  syscall (SYS_close, fd);
  mainpid = syscall (SYS_getpid);
  e = getenv ("VP_SCEN");
  if (e && (fd = syscall (SYS_openat, AT_FDCWD, e, O_RDONLY, 0)) >= 0) {
    struct stat st;
    char *p;
    syscall (SYS_fstat, fd, &st);
    buf = own (st.st_size + 1);
    for (k = 0; k < st.st_size && (n = syscall (SYS_read, fd, buf + k, st.st_size - k)) > 0; k += n) ;
    buf[k] = 0;
    syscall (SYS_close, fd);
    for (p = buf; *p;) {
      char *nl = strchr (p, '\n');
      if (nl) *nl = 0;
      if (*p) {
	if (nactions >= cap) {
	  action_t *old = actions;
	  actions = (action_t *) own ((cap ? 2 * cap : 256) * sizeof *actions);
	  if (old) memcpy (actions, old, cap * sizeof *actions);
	  cap = cap ? 2 * cap : 256;
	}
	if (*p == '@') {
	  actions[nactions].group = strtol (p + 1, &p, 10);
	  actions[nactions].t = -1;
	} else {
	  actions[nactions].group = -1;
	  actions[nactions].t = now_us + strtoll (p, &p, 10);
	}
	while (*p == ' ') p++;
	actions[nactions++].cmd = p;
      }
      if (!nl) break;
      p = nl + 1;
    }
  }
  inited = 1;
}

__attribute__ ((constructor (200))) static void
ctor (void)
{
  int i;
  init ();
  /* actions at time 0 are part of the set-up */
  for (i = 0; i < nactions; i++)
    if (actions[i].group < 0 && actions[i].t <= 1000LL * 1000000) {
      char *c = strdup (actions[i].cmd);
      do_action (c);
      free (c);
      actions[i].group = -2;
    }
  ncall = 0;
}

__attribute__ ((destructor (200))) static void
dtor (void)
{
  if (!inited) return;
  if (!in_child) {
    ev ("EXIT", "lld", (long long) ncall, __sanitizer_get_current_allocated_bytes ? (long long) __sanitizer_get_current_allocated_bytes () : -1LL, openfds ());
    if (getenv ("VP_LEAK") && __lsan_do_recoverable_leak_check)
      ev ("LEAK", "d", __lsan_do_recoverable_leak_check ());
  }
}

/* ---------- time ---------- */

static int
run_due (long long upto)
{
  int n = 0;
  for (; next_action < nactions; next_action++) {
    action_t *a = &actions[next_action];
    if (a->group != -1) continue;
    if (a->t > upto) break;
    if (a->t > now_us) now_us = a->t;
    { char *c = strdup (a->cmd); do_action (c); free (c); }
    n++;
    next_action++;
    return n;
  }
  return n;
}

static long long
next_time (void)
{
  int i;
  for (i = next_action; i < nactions; i++)
    if (actions[i].group == -1) return actions[i].t;
  return -1;
}

static int
vpoll (struct pollfd *fds, nfds_t n, long long timeout_us)
{
  long long target = timeout_us < 0 ? -1 : now_us + timeout_us;
  struct timespec zero = { 0, 0 };
  for (;;) {
    long r = syscall (SYS_ppoll, fds, n, &zero, NULL, 0);
    long long t;
    if (r != 0) return r;
    if (timeout_us == 0) return 0;
    t = next_time ();
    if (t < 0 || (target >= 0 && t > target)) {
      if (target < 0 || (t < 0 && now_us > actions[nactions ? nactions - 1 : 0].t + 4000LL * 1000000)) {
	ev ("STUCK", "");
	syscall (SYS_exit_group, 78);
      }
      now_us = target;
      return 0;
    }
    run_due (t);
  }
}

int
poll (struct pollfd *fds, nfds_t n, int timeout)
{
  if (!inited) return syscall (SYS_poll, fds, n, timeout);
  if (enter ("poll", NULL) == M_ERR) return -1;
  return vpoll (fds, n, timeout < 0 ? -1 : timeout * 1000LL);
}
int __poll_chk (struct pollfd *fds, nfds_t n, int timeout, size_t len) { return poll (fds, n, timeout); }
int
ppoll (struct pollfd *fds, nfds_t n, const struct timespec *ts, const sigset_t *mask)
{
  if (!inited) return syscall (SYS_ppoll, fds, n, ts, mask, 8);
  if (enter ("poll", NULL) == M_ERR) return -1;
  return vpoll (fds, n, ts ? ts->tv_sec * 1000000LL + (ts->tv_nsec + 999) / 1000 : -1);
}
int __ppoll_chk (struct pollfd *fds, nfds_t n, const struct timespec *ts, const sigset_t *m, size_t len) { return ppoll (fds, n, ts, m); }

static int
vsleep (long long us)
{
  struct pollfd none;
  ev ("sleep", "l", us);
  return vpoll (&none, 0, us ? us : 1);
}
unsigned sleep (unsigned s) { if (!inited) return 0; vsleep (s * 1000000LL); return 0; }
int usleep (useconds_t u) { if (!inited) return 0; vsleep (u); return 0; }
int nanosleep (const struct timespec *a, struct timespec *b)
{ if (!inited) return syscall (SYS_nanosleep, a, b); vsleep (a->tv_sec * 1000000LL + a->tv_nsec / 1000); return 0; }

int
clock_gettime (clockid_t id, struct timespec *ts)
{
  long long t;
  if (!inited) return syscall (SYS_clock_gettime, id, ts);
  enter ("clock_gettime", NULL);
  t = now_us;
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) t += epoch * 1000000;
  ts->tv_sec = t / 1000000;
  ts->tv_nsec = t % 1000000 * 1000;
  return 0;
}
time_t
time (time_t *p)
{
  struct timespec ts;
  enter ("time", NULL);
  if (!inited) syscall (SYS_clock_gettime, CLOCK_REALTIME, &ts);
  else ts.tv_sec = now_us / 1000000 + epoch;
  if (p) *p = ts.tv_sec;
  return ts.tv_sec;
}
int
gettimeofday (struct timeval *restrict tv, void *restrict tz)
{
  if (!inited) return syscall (SYS_gettimeofday, tv, tz);
  tv->tv_sec = now_us / 1000000 + epoch;
  tv->tv_usec = now_us % 1000000;
  return 0;
}

/* ---------- files ---------- */

static void
setfd (int fd, const char *path, int wr)
{
  if (fd < 0 || fd >= MAXFD) return;
  if (!path)
    fdpath[fd] = NULL;
  else {
    size_t n = strlen (path) + 1;
    if (fdcap[fd] < n) { fdcap[fd] = n < 256 ? 256 : 2 * n; fdbuf[fd] = own (fdcap[fd]); }
    fdpath[fd] = memcpy (fdbuf[fd], path, n);
  }
  fdwr[fd] = wr;
}
static const char *fdp (int fd) { return fd >= 0 && fd < MAXFD ? fdpath[fd] : NULL; }

static int
do_open (const char *fn, int dirfd, const char *path, int flags, int mode)
{
  char b[PATHLEN];
  int fd, wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  if (!inited) return syscall (SYS_openat, dirfd, path, flags, mode);
  if (enter ("open", path) == M_ERR) { int e = errno; ev ("open", "sddd", path, flags, mode, -e); errno = e; return -1; }
  fd = syscall (SYS_openat, dirfd, rw (path, b), flags, mode);
  ev ("open", "sddd", path, flags, mode, fd < 0 ? -errno : fd);
  if (fd >= 0) setfd (fd, path, wr);
  leave ();
  return fd;
}
#define MODE(flags) int mode = 0; if ((flags) & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start (ap, flags); mode = va_arg (ap, int); va_end (ap); }
int open (const char *path, int flags, ...) { MODE (flags) return do_open ("open", AT_FDCWD, path, flags, mode); }
int open64 (const char *path, int flags, ...) { MODE (flags) return do_open ("open", AT_FDCWD, path, flags, mode); }
int openat (int d, const char *path, int flags, ...) { MODE (flags) return do_open ("open", d, path, flags, mode); }
int openat64 (int d, const char *path, int flags, ...) { MODE (flags) return do_open ("open", d, path, flags, mode); }
int creat (const char *path, mode_t mode) { return do_open ("open", AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64 (const char *path, mode_t mode) { return creat (path, mode); }
int __open_2 (const char *path, int flags) { return do_open ("open", AT_FDCWD, path, flags, 0); }
int __open64_2 (const char *path, int flags) { return do_open ("open", AT_FDCWD, path, flags, 0); }
int __openat_2 (int d, const char *path, int flags) { return do_open ("open", d, path, flags, 0); }
int __openat64_2 (int d, const char *path, int flags) { return do_open ("open", d, path, flags, 0); }

static int
fopen_flags (const char *m)
{
  int f = *m == 'r' ? O_RDONLY : *m == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
  if (strchr (m, '+')) f = (f & ~O_ACCMODE) | O_RDWR;
  if (strchr (m, 'x')) f |= O_EXCL;
  return f;
}
/* stdio does not read through the read() below: a stream that is to fail half
 * way is a cookie stream */
typedef struct { int fd; char path[256]; } cookie_t;
static ssize_t
ck_read (void *c, char *buf, size_t n)
{
  cookie_t *k = c;
  int m = enter ("read", k->path);
  if (m == M_ERR) { ev ("read", "sl", k->path, (long long) -errno); return -1; }
  if (m == M_SHORT && n > 7) n = 7;
  else if (n > 512) n = 512;
  return syscall (SYS_read, k->fd, buf, n);
}
static int ck_close (void *c) { cookie_t *k = c; syscall (SYS_close, k->fd); free (k); return 0; }

static FILE *
do_fopen (const char *path, const char *m)
{
  int flags = fopen_flags (m), fd, i, cookie = 0;
  char b[PATHLEN];
  FILE *f;
  if (enter ("fopen", path) == M_ERR) { int e = errno; ev ("fopen", "ssd", path, m, -e); errno = e; return NULL; }
  fd = syscall (SYS_openat, AT_FDCWD, rw (path, b), flags, 0666);
  ev ("fopen", "ssd", path, m, fd < 0 ? -errno : fd);
  if (fd < 0) return NULL;
  for (i = 0; i < nrules; i++)
    if (rules[i].on && !strcmp (rules[i].fn, "read")) cookie = 1;
  if (cookie && flags == O_RDONLY) {
    cookie_io_functions_t io = { ck_read, NULL, NULL, ck_close };
    cookie_t *k = malloc (sizeof *k);
    k->fd = fd;
    snprintf (k->path, sizeof k->path, "%s", path);
    f = fopencookie (k, "r", io);
    if (f) setvbuf (f, NULL, _IOFBF, 512);
    return f;
  }
  setfd (fd, path, flags != O_RDONLY);
  f = fdopen (fd, m);
  leave ();
  return f;
}
FILE *fopen (const char *path, const char *m) { if (!inited) return R (fopen) (path, m); return do_fopen (path, m); }
FILE *fopen64 (const char *path, const char *m) { if (!inited) return R (fopen64) (path, m); return do_fopen (path, m); }
FILE *
freopen (const char *path, const char *m, FILE *f)
{
  char b[PATHLEN];
  if (!inited) return R (freopen) (path, m, f);
  enter ("fopen", path);
  ev ("fopen", "ssd", path, m, 0);
  return R (freopen) (rw (path, b), m, f);
}
FILE *freopen64 (const char *path, const char *m, FILE *f) { return freopen (path, m, f); }
int
fclose (FILE *f)
{
  int fd = fileno (f);
  if (inited && fd >= 0 && fdp (fd)) setfd (fd, NULL, 0);
  return R (fclose) (f);
}

int
close (int fd)
{
  const char *p = fdp (fd);
  long r;
  if (!inited || fd == TRACE_FD) { if (fd == TRACE_FD && inited) { errno = EBADF; return -1; } return syscall (SYS_close, fd); }
  if (p && fdwr[fd]) {
    int m = enter ("close", p);
    ev ("close", "sd", p, fd);
    setfd (fd, NULL, 0);
    r = syscall (SYS_close, fd);
    if (m == M_ERR) { errno = EIO; r = -1; }
    leave ();
    return r;
  }
  if (p) { enter ("close", p); setfd (fd, NULL, 0); }
  return syscall (SYS_close, fd);
}

ssize_t
write (int fd, const void *buf, size_t n)
{
  const char *p = fdp (fd);
  long r;
  int m;
  if (!inited || !p) return syscall (SYS_write, fd, buf, n);
  m = enter ("write", p);
  if (m == M_ERR) { int e = errno; ev ("write", "sll", p, (long long) n, (long long) -e); errno = e; return -1; }
  if (m == M_SHORT && n > 1) n /= 2;
  r = syscall (SYS_write, fd, buf, n);
  ev ("write", "sll", p, (long long) n, (long long) (r < 0 ? -errno : r));
  leave ();
  return r;
}
ssize_t
writev (int fd, const struct iovec *v, int c)
{
  const char *p = fdp (fd);
  if (inited && p) {
    if (enter ("write", p) == M_ERR) return -1;
    ev ("write", "sll", p, 0LL, 0LL);
  }
  return syscall (SYS_writev, fd, v, c);
}
ssize_t pwrite (int fd, const void *b, size_t n, off_t o)
{
  const char *p = fdp (fd);
  if (inited && p) { if (enter ("write", p) == M_ERR) return -1; ev ("write", "sll", p, (long long) n, 0LL); }
  return syscall (SYS_pwrite64, fd, b, n, o);
}
ssize_t
read (int fd, void *buf, size_t n)
{
  const char *p = fdp (fd);
  int m;
  if (!inited || !p) return syscall (SYS_read, fd, buf, n);
  m = enter ("read", p);
  if (m == M_ERR) { ev ("read", "sl", p, (long long) -errno); return -1; }
  if (m == M_SHORT && n > 7) n = 7;
  return syscall (SYS_read, fd, buf, n);
}
ssize_t __read_chk (int fd, void *buf, size_t n, size_t l) { return read (fd, buf, n); }

static int
do_fsync (const char *fn, int nr, int fd)
{
  const char *p = fdp (fd);
  long r;
  if (inited && enter (fn, p) == M_ERR) { ev (fn, "sd", p ? p : "-", -errno); return -1; }
  r = syscall (nr, fd);
  ev (fn, "sd", p ? p : "-", (int) r);
  leave ();
  return r;
}
int fsync (int fd) { return do_fsync ("fsync", SYS_fsync, fd); }
int fdatasync (int fd) { return do_fsync ("fsync", SYS_fdatasync, fd); }

/* path calls that change something */
static long
chg (const char *fn, const char *p, const char *q, long nr, long a, long b, long c, long d, long e5)
{
  long r;
  if (!inited) return syscall (nr, a, b, c, d, e5);
  if (enter (fn, p) == M_ERR) { int e = errno; ev (fn, "ssd", p, q ? q : "-", -e); errno = e; return -1; }
  r = syscall (nr, a, b, c, d, e5);
  ev (fn, "ssd", p, q ? q : "-", r < 0 ? -errno : 0);
  leave ();
  return r;
}
#define B1 char b1[PATHLEN]
#define B2 char b1[PATHLEN], b2[PATHLEN]
int unlink (const char *p) { B1; return chg ("unlink", p, NULL, SYS_unlink, (long) rw (p, b1), 0, 0, 0, 0); }
int unlinkat (int d, const char *p, int f) { B1; return chg ("unlink", p, NULL, SYS_unlinkat, d, (long) rw (p, b1), f, 0, 0); }
int remove (const char *p) { B1; return chg ("unlink", p, NULL, SYS_unlink, (long) rw (p, b1), 0, 0, 0, 0); }
int rmdir (const char *p) { B1; return chg ("rmdir", p, NULL, SYS_rmdir, (long) rw (p, b1), 0, 0, 0, 0); }
int rename (const char *p, const char *q) { B2; return chg ("rename", p, q, SYS_rename, (long) rw (p, b1), (long) rw (q, b2), 0, 0, 0); }
int renameat (int d, const char *p, int e, const char *q) { B2; return chg ("rename", p, q, SYS_renameat2, d, (long) rw (p, b1), e, (long) rw (q, b2), 0); }
int renameat2 (int d, const char *p, int e, const char *q, unsigned f) { B2; return chg ("rename", p, q, SYS_renameat2, d, (long) rw (p, b1), e, (long) rw (q, b2), f); }
int link (const char *p, const char *q) { B2; return chg ("link", p, q, SYS_link, (long) rw (p, b1), (long) rw (q, b2), 0, 0, 0); }
int linkat (int d, const char *p, int e, const char *q, int f) { B2; return chg ("link", p, q, SYS_linkat, d, (long) rw (p, b1), e, (long) rw (q, b2), f); }
int symlink (const char *p, const char *q) { B2; return chg ("symlink", q, p, SYS_symlink, (long) p, (long) rw (q, b2), 0, 0, 0); }
int mkdir (const char *p, mode_t m) { B1; return chg ("mkdir", p, NULL, SYS_mkdir, (long) rw (p, b1), m, 0, 0, 0); }
int chmod (const char *p, mode_t m) { B1; return chg ("chmod", p, NULL, SYS_chmod, (long) rw (p, b1), m, 0, 0, 0); }
int chown (const char *p, uid_t u, gid_t g) { B1; return chg ("chown", p, NULL, SYS_chown, (long) rw (p, b1), u, g, 0, 0); }
int truncate (const char *p, off_t l) { B1; return chg ("truncate", p, NULL, SYS_truncate, (long) rw (p, b1), l, 0, 0, 0); }
int truncate64 (const char *p, off64_t l) { B1; return chg ("truncate", p, NULL, SYS_truncate, (long) rw (p, b1), l, 0, 0, 0); }
int mknod (const char *p, mode_t m, dev_t d) { B1; return chg ("mknod", p, NULL, SYS_mknod, (long) rw (p, b1), m, d, 0, 0); }
int fchmod (int fd, mode_t m) { const char *p = fdp (fd); return chg ("fchmod", p ? p : "-", NULL, SYS_fchmod, fd, m, 0, 0, 0); }
int fchown (int fd, uid_t u, gid_t g) { const char *p = fdp (fd); return chg ("fchown", p ? p : "-", NULL, SYS_fchown, fd, u, g, 0, 0); }
int ftruncate (int fd, off_t l) { const char *p = fdp (fd); return chg ("ftruncate", p ? p : "-", NULL, SYS_ftruncate, fd, l, 0, 0, 0); }
int ftruncate64 (int fd, off64_t l) { return ftruncate (fd, l); }
int fallocate (int fd, int m, off_t o, off_t l) { const char *p = fdp (fd); return chg ("fallocate", p ? p : "-", NULL, SYS_fallocate, fd, m, o, l, 0); }
int
chdir (const char *p)
{
  char b[PATHLEN];
  if (!inited) return syscall (SYS_chdir, p);
  ev ("chdir", "s", p);
  return syscall (SYS_chdir, rw (p, b));
}

/* mkstemp and friends go through open() above in glib; libc's own do not */
static int
do_mkstemp (char *tpl, int flags)
{
  size_t l = strlen (tpl);
  static unsigned n;
  int fd, i;
  if (l < 6) { errno = EINVAL; return -1; }
  for (i = 0; i < 1000; i++) {
    char t[8];
    snprintf (t, sizeof t, "%06u", n++ % 1000000);
    memcpy (tpl + l - 6, t, 6);
    fd = do_open ("open", AT_FDCWD, tpl, flags | O_RDWR | O_CREAT | O_EXCL, 0600);
    if (fd >= 0 || errno != EEXIST) return fd;
  }
  return -1;
}
int mkstemp (char *t) { return do_mkstemp (t, 0); }
int mkstemp64 (char *t) { return do_mkstemp (t, 0); }
int mkostemp (char *t, int f) { return do_mkstemp (t, f); }
int mkostemp64 (char *t, int f) { return do_mkstemp (t, f); }

/* queries */
static void
fixino (const char *p, struct stat *st)
{
  long long *e = p ? tab (inos, &ninos, p, 0) : NULL;
  if (e) st->st_ino = *e;
  e = p ? tab (bszs, &nbszs, p, 0) : NULL;
  if (e) st->st_blksize = *e;
}
static int
do_stat (const char *fn, int d, const char *p, struct stat *st, int flags)
{
  char b[PATHLEN];
  long r;
  if (!inited) return syscall (SYS_newfstatat, d, p, st, flags);
  if (enter ("stat", p) == M_ERR) { int e = errno; ev ("stat", "sd", p, -e); errno = e; return -1; }
  r = syscall (SYS_newfstatat, d, rw (p, b), st, flags);
  ev ("stat", "sd", p, r < 0 ? -errno : 0);
  if (!r && !((flags & AT_SYMLINK_NOFOLLOW) && S_ISLNK (st->st_mode))) fixino (p, st);
  leave ();
  return r;
}
int stat (const char *restrict p, struct stat *restrict st) { return do_stat ("stat", AT_FDCWD, p, st, 0); }
int stat64 (const char *restrict p, struct stat64 *restrict st) { return do_stat ("stat", AT_FDCWD, p, (struct stat *) st, 0); }
int lstat (const char *restrict p, struct stat *restrict st) { return do_stat ("stat", AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int lstat64 (const char *restrict p, struct stat64 *restrict st) { return do_stat ("stat", AT_FDCWD, p, (struct stat *) st, AT_SYMLINK_NOFOLLOW); }
int fstatat (int d, const char *restrict p, struct stat *restrict st, int f) { return do_stat ("stat", d, p, st, f); }
int fstatat64 (int d, const char *restrict p, struct stat64 *restrict st, int f) { return do_stat ("stat", d, p, (struct stat *) st, f); }
static int
do_fstat (int fd, struct stat *st)
{
  const char *p = fdp (fd);
  long r;
  if (inited && p && enter ("fstat", p) == M_ERR) { int e = errno; ev ("fstat", "sd", p, -e); errno = e; return -1; }
  r = syscall (SYS_fstat, fd, st);
  if (inited && p && !r) { fixino (p, st); ev ("fstat", "sd", p, 0); }
  return r;
}
int fstat (int fd, struct stat *st) { return do_fstat (fd, st); }
int fstat64 (int fd, struct stat64 *st) { return do_fstat (fd, (struct stat *) st); }
int
statx (int d, const char *restrict p, int f, unsigned m, struct statx *restrict st)
{
  char b[PATHLEN];
  long r;
  if (!inited) return syscall (SYS_statx, d, p, f, m, st);
  if (enter ("stat", p) == M_ERR) { int e = errno; ev ("stat", "sd", p, -e); errno = e; return -1; }
  r = syscall (SYS_statx, d, rw (p, b), f, m, st);
  ev ("stat", "sd", p, r < 0 ? -errno : 0);
  return r;
}
static int
do_access (int d, const char *p, int m, int f)
{
  char b[PATHLEN];
  long r;
  if (!inited) return syscall (SYS_faccessat, d, p, m);
  if (enter ("access", p) == M_ERR) { int e = errno; ev ("access", "sd", p, -e); errno = e; return -1; }
  r = syscall (SYS_faccessat, d, rw (p, b), m);
  ev ("access", "sd", p, r < 0 ? -errno : 0);
  return r;
}
int access (const char *p, int m) { return do_access (AT_FDCWD, p, m, 0); }
int euidaccess (const char *p, int m) { return do_access (AT_FDCWD, p, m, 0); }
int faccessat (int d, const char *p, int m, int f) { return do_access (d, p, m, f); }
static ssize_t
do_readlink (int d, const char *p, char *buf, size_t n)
{
  char b[PATHLEN];
  long r;
  if (!inited) return syscall (SYS_readlinkat, d, p, buf, n);
  if (enter ("readlink", p) == M_ERR) { int e = errno; ev ("readlink", "sd", p, -e); errno = e; return -1; }
  r = syscall (SYS_readlinkat, d, rw (p, b), buf, n);
  ev ("readlink", "sd", p, r < 0 ? -errno : (int) r);
  return r;
}
ssize_t readlink (const char *restrict p, char *restrict b, size_t n) { return do_readlink (AT_FDCWD, p, b, n); }
ssize_t __readlink_chk (const char *restrict p, char *restrict b, size_t n, size_t l) { return do_readlink (AT_FDCWD, p, b, n); }
ssize_t readlinkat (int d, const char *restrict p, char *restrict b, size_t n) { return do_readlink (d, p, b, n); }

/* directories: entries in ascending (numeric) order, as in /proc */
#define DMAGIC 0x5650444952ULL
typedef struct { unsigned long long magic; int n, i; struct dirent **e; char path[256]; struct dirent cur; } vdir_t;
static int
dcmp (const void *a, const void *b)
{
  const char *x = (*(struct dirent *const *) a)->d_name, *y = (*(struct dirent *const *) b)->d_name;
  int dx = *x >= '0' && *x <= '9', dy = *y >= '0' && *y <= '9';
  if (dx != dy) return dx ? 1 : -1;
  if (dx && strlen (x) != strlen (y)) return strlen (x) < strlen (y) ? -1 : 1;
  return strcmp (x, y);
}
DIR *
opendir (const char *p)
{
  char b[PATHLEN];
  DIR *d;
  vdir_t *v;
  struct dirent *e;
  int cap = 0;
  if (!inited) return R (opendir) (p);
  if (enter ("opendir", p) == M_ERR) { int er = errno; ev ("opendir", "sd", p, -er); errno = er; return NULL; }
  d = R (opendir) (rw (p, b));
  ev ("opendir", "sd", p, d ? 0 : -errno);
  if (!d) return NULL;
  v = calloc (1, sizeof *v);
  v->magic = DMAGIC;
  snprintf (v->path, sizeof v->path, "%s", p);
  while ((e = R (readdir) (d))) {
    if (v->n >= cap) { cap = cap ? 2 * cap : 64; v->e = realloc (v->e, cap * sizeof *v->e); }
    v->e[v->n] = malloc (sizeof **v->e);
    memcpy (v->e[v->n++], e, sizeof **v->e < e->d_reclen ? sizeof **v->e : e->d_reclen);
  }
  R (closedir) (d);
  if (v->n) qsort (v->e, v->n, sizeof *v->e, dcmp);
  return (DIR *) v;
}
struct dirent *
readdir (DIR *d)
{
  vdir_t *v = (vdir_t *) d;
  if (!d || v->magic != DMAGIC) return R (readdir) (d);
  if (enter ("readdir", v->path) == M_ERR) return NULL;
  if (v->i >= v->n) return NULL;
  v->cur = *v->e[v->i++];
  return &v->cur;
}
struct dirent64 *readdir64 (DIR *d) { return (struct dirent64 *) readdir (d); }
void rewinddir (DIR *d) { vdir_t *v = (vdir_t *) d; if (v->magic != DMAGIC) { R (rewinddir) (d); return; } v->i = 0; }
int
closedir (DIR *d)
{
  vdir_t *v = (vdir_t *) d;
  int i;
  if (!d || v->magic != DMAGIC) return R (closedir) (d);
  enter ("closedir", v->path);
  ev ("closedir", "s", v->path);
  for (i = 0; i < v->n; i++) free (v->e[i]);
  free (v->e);
  v->magic = 0;
  free (v);
  return 0;
}
int
scandir (const char *restrict p, struct dirent ***restrict list, int (*filter) (const struct dirent *),
	 int (*cmp) (const struct dirent **, const struct dirent **))
{
  DIR *d = opendir (p);
  struct dirent *e, **l = NULL;
  int n = 0;
  if (!d) return -1;
  while ((e = readdir (d))) {
    if (filter && !filter (e)) continue;
    l = realloc (l, (n + 1) * sizeof *l);
    l[n] = malloc (sizeof **l);
    *l[n++] = *e;
  }
  closedir (d);
  if (cmp && n) qsort (l, n, sizeof *l, (int (*) (const void *, const void *)) cmp);
  *list = l;
  return n;
}

/* ---------- prefetching ---------- */

ssize_t
readahead (int fd, off64_t off, size_t len)
{
  const char *p = fdp (fd);
  if (enter ("readahead", p) == M_ERR) { int e = errno; ev ("readahead", "slld", p ? p : "-", (long long) off, (long long) len, -e); errno = e; return -1; }
  ev ("readahead", "slld", p ? p : "-", (long long) off, (long long) len, 0);
  return 0;
}
int
posix_fadvise (int fd, off_t off, off_t len, int adv)
{
  const char *p = fdp (fd);
  ev ("fadvise", "slld", p ? p : "-", (long long) off, (long long) len, adv);
  return 0;
}
int posix_fadvise64 (int fd, off64_t off, off64_t len, int adv) { return posix_fadvise (fd, off, len, adv); }

typedef struct { char *addr; size_t len; long long off; char path[PATHLEN]; } mapping_t;
static mapping_t maps[64];
static void *
do_mmap (void *a, size_t l, int prot, int fl, int fd, off_t off)
{
  const char *p = fd >= 0 ? fdp (fd) : NULL;
  void *r;
  int i;
  if (inited && p && enter ("mmap", p) == M_ERR) { int e = errno; ev ("mmap", "slldd", p, (long long) off, (long long) l, prot, -e); errno = e; return MAP_FAILED; }
  r = (void *) syscall (SYS_mmap, a, l, prot, fl, fd, off);
  if (inited && p) {
    ev ("mmap", "slldd", p, (long long) off, (long long) l, prot, r == MAP_FAILED ? -errno : 0);
    if (r != MAP_FAILED)
      for (i = 0; i < 64; i++)
	if (!maps[i].addr) { maps[i].addr = r; maps[i].len = l; maps[i].off = off; snprintf (maps[i].path, PATHLEN, "%s", p); break; }
  }
  return r;
}
void *mmap (void *a, size_t l, int prot, int fl, int fd, off_t off) { return do_mmap (a, l, prot, fl, fd, off); }
void *mmap64 (void *a, size_t l, int prot, int fl, int fd, off64_t off) { return do_mmap (a, l, prot, fl, fd, off); }
int
munmap (void *a, size_t l)
{
  int i;
  for (i = 0; inited && i < 64; i++)
    if (maps[i].addr && maps[i].addr == a) { ev ("munmap", "sll", maps[i].path, maps[i].off, (long long) l); maps[i].addr = NULL; break; }
  return syscall (SYS_munmap, a, l);
}
static int
do_madvise (void *a, size_t l, int adv)
{
  int i;
  for (i = 0; inited && i < 64; i++)
    if (maps[i].addr && (char *) a >= maps[i].addr && (char *) a < maps[i].addr + maps[i].len) {
      if (enter ("madvise", maps[i].path) == M_ERR) { int e = errno; ev ("madvise", "slldd", maps[i].path, maps[i].off + ((char *) a - maps[i].addr), (long long) l, adv, -e); errno = e; return -1; }
      ev ("madvise", "slldd", maps[i].path, maps[i].off + ((char *) a - maps[i].addr), (long long) l, adv, 0);
      return 0;
    }
  return syscall (SYS_madvise, a, l, adv);
}
int madvise (void *a, size_t l, int adv) { return do_madvise (a, l, adv); }
int posix_madvise (void *a, size_t l, int adv) { return do_madvise (a, l, adv); }

int
ioctl (int fd, unsigned long req, ...)
{
  va_list ap;
  void *arg;
  const char *p = fdp (fd);
  va_start (ap, req);
  arg = va_arg (ap, void *);
  va_end (ap);
  if (inited && req == FIBMAP) {
    long long *e = p ? tab (blks, &nblks, p, 0) : NULL;
    int in = *(int *) arg;
    if (enter ("fibmap", p) == M_ERR) return -1;
    ev ("fibmap", "sdd", p ? p : "-", in, e ? (int) (*e + in) : -1);
    if (!e) { errno = EINVAL; return -1; }
    *(int *) arg = *e ? (int) (*e + in) : 0;
    return 0;
  }
  if (inited && req == FIGETBSZ) {
    long long *e = p ? tab (bszs, &nbszs, p, 0) : NULL;
    if (e) { *(int *) arg = (int) *e; return 0; }
  }
  return syscall (SYS_ioctl, fd, req, arg);
}

/* ---------- processes ---------- */

pid_t
fork (void)
{
  pid_t p;
  /* not getppid () in the child: the parent may be gone by then */
  int wasmain = mainpid == (pid_t) syscall (SYS_getpid);
  if (!inited) return R (fork) ();
  if (enter ("fork", NULL) == M_ERR) { int e = errno; ev ("fork", "d", -e); errno = e; return -1; }
  p = R (fork) ();
  if (p == 0) {
    in_child++;
    if (getenv ("VP_DAEMON") && in_child == 1 && wasmain) {
      /* the daemonized process is the one to watch from now on */
      mainpid = syscall (SYS_getpid);
      in_child = 0;
      unsetenv ("VP_DAEMON");
      ev ("DAEMON", "d", (int) mainpid);
    }
  } else if (getenv ("VP_DAEMON")) {
    ev ("DPARENT", "d", (int) p);
    quiet = 1;
  } else
    ev ("fork", "d", (int) p);
  return p;
}
pid_t vfork (void) { return fork (); }
static pid_t
do_wait (pid_t pid, int *st, int opt, struct rusage *ru)
{
  long r;
  if (!inited) return syscall (SYS_wait4, pid, st, opt, ru);
  if (enter ("wait", NULL) == M_ERR) { int e = errno; ev ("wait", "d", -e); errno = e; return -1; }
  r = syscall (SYS_wait4, pid, st, opt, ru);
  ev ("wait", "d", r < 0 ? -errno : (int) r);
  return r;
}
pid_t wait (int *st) { return do_wait (-1, st, 0, NULL); }
pid_t waitpid (pid_t p, int *st, int o) { return do_wait (p, st, o, NULL); }
pid_t wait3 (int *st, int o, struct rusage *ru) { return do_wait (-1, st, o, ru); }
pid_t wait4 (pid_t p, int *st, int o, struct rusage *ru) { return do_wait (p, st, o, ru); }
int
waitid (idtype_t t, id_t id, siginfo_t *in, int o)
{
  long r;
  if (inited && enter ("wait", NULL) == M_ERR) { ev ("wait", "d", -errno); return -1; }
  r = syscall (SYS_waitid, t, id, in, o, NULL);
  ev ("wait", "d", r < 0 ? -errno : in ? (int) in->si_pid : 0);
  return r;
}
/* children and the process that has yet to daemonize are others than the daemon */
pid_t getpid (void) { return !inited ? syscall (SYS_getpid) : in_child ? 1000000 + syscall (SYS_getpid) : getenv ("VP_DAEMON") ? fakepid - 1 : fakepid; }
int nice (int n) { int m; if (!inited) return 0; m = enter ("nice", NULL); ev ("nice", "d", n); return m == M_ERR ? -1 : n; }
int setpriority (__priority_which_t w, id_t i, int n) { ev ("nice", "d", n); return 0; }
pid_t setsid (void) { ev ("setsid", ""); return syscall (SYS_setsid); }
mode_t umask (mode_t m) { ev ("umask", "d", (int) m); return syscall (SYS_umask, m); }
int kill (pid_t p, int s) { ev ("kill", "dd", (int) p, s); errno = EPERM; return -1; }
int killpg (pid_t p, int s) { ev ("kill", "dd", (int) p, s); errno = EPERM; return -1; }
int execl (const char *p, const char *a, ...) { ev ("exec", "s", p); errno = ENOENT; return -1; }
int execv (const char *p, char *const a[]) { ev ("exec", "s", p); errno = ENOENT; return -1; }
int execve (const char *p, char *const a[], char *const e[]) { ev ("exec", "s", p); errno = ENOENT; return -1; }
int execvp (const char *p, char *const a[]) { ev ("exec", "s", p); errno = ENOENT; return -1; }
int system (const char *c) { ev ("exec", "s", c); return -1; }
FILE *popen (const char *c, const char *m) { ev ("exec", "s", c); return NULL; }
int dup2 (int a, int b) { long r = syscall (SYS_dup2, a, b); if (inited) ev ("dup2", "sdd", fdp (a) ? fdp (a) : "-", a, b); return r; }
int
pipe2 (int f[2], int fl)
{
  if (inited && enter ("pipe", NULL) == M_ERR) return -1;
  return syscall (SYS_pipe2, f, fl);
}
