/* Reference recogniser for HTTP/1.x message heads: a byte-at-a-time automaton.  The verdict after n bytes depends
 * on these n bytes only, so it is prefix stable by construction. */
#ifndef REFHTTP_H
#define REFHTTP_H
#include <string.h>
#include <stdint.h>
#include <stddef.h>

typedef struct { int off; int len; } ref_slice;              /* off -1: absent */
typedef struct
{
  ref_slice method, target, reason;
  int       minor, status, n;
  ref_slice name[32], value[32];
} ref_msg;

static inline int ref_tchar(unsigned char c)
{
  return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c && strchr("!#$%&'*+-.^_`|~", c));
}
static inline int ref_blank(unsigned char c) { return c == ' ' || c == '\t'; }
static inline int ref_digit(unsigned char c) { return c >= '0' && c <= '9'; }
/* a byte that may not occur in a value */
static inline int ref_ctl(unsigned char c) { return (c < 0x20 && c != '\t') || c == 0x7f; }

enum { RS_BLANKLINE, RS_BLANKLF, RS_METHOD, RS_SP1, RS_TARGET, RS_SP2, RS_VERSION, RS_LINELF,
       RS_RVERSION, RS_RSP, RS_STATUS, RS_REASON, RS_REASONLF,
       RS_FIELD, RS_NAME, RS_LEAD, RS_VALUE, RS_VALUELF, RS_LASTLF };

/* -2 incomplete, -1 malformed, otherwise the length of the head */
static int ref_parse(int state, const unsigned char *s, int n, int max, ref_msg *m)
{
  int i = 0, start = 0;
  unsigned char c;

  m->n = 0;
  m->method = m->target = m->reason = (ref_slice) {-1, 0};
  m->minor = -1;
  m->status = 0;
  while (i < n)
  {
    c = s[i];
    switch (state)
    {
    case RS_BLANKLINE:
      start = i;
      if (c == '\r') { state = RS_BLANKLF; i++; }
      else if (c == '\n') { state = RS_METHOD; start = ++i; }
      else state = RS_METHOD;
      break;
    case RS_BLANKLF:
      if (c != '\n') return -1;
      state = RS_METHOD;
      start = ++i;
      break;
    case RS_METHOD:
    case RS_TARGET:
      if (c == ' ')
      {
        if (state == RS_METHOD) { m->method = (ref_slice) {start, i - start}; state = RS_SP1; }
        else { m->target = (ref_slice) {start, i - start}; state = RS_SP2; }
      }
      else if (c < 0x20 || c == 0x7f)
        return -1;
      i++;
      break;
    case RS_SP1:
      if (c == ' ') i++;
      else { state = RS_TARGET; start = i; }
      break;
    case RS_SP2:
      if (c == ' ') i++;
      else
      {
        if (!m->method.len) return -1;
        state = RS_VERSION;
        start = i;
      }
      break;
    case RS_VERSION:
    case RS_RVERSION:
      /* judged once nine bytes are there: the version and the byte after it */
      if (i - start == 8)
      {
        if (memcmp(s + start, "HTTP/1.", 7) != 0 || !ref_digit(s[start + 7])) return -1;
        m->minor = s[start + 7] - '0';
        if (state == RS_RVERSION)
        {
          if (c != ' ') return -1;
          state = RS_RSP;
        }
        else if (c == '\r') state = RS_LINELF;
        else if (c == '\n') state = RS_FIELD;
        else return -1;
      }
      i++;
      break;
    case RS_LINELF:
      if (c != '\n') return -1;
      state = RS_FIELD;
      i++;
      break;
    case RS_RSP:
      if (c == ' ') i++;
      else { state = RS_STATUS; start = i; }
      break;
    case RS_STATUS:
      /* judged once the byte after the three digits is there */
      if (i - start < 3) { i++; break; }
      if (!ref_digit(s[start]) || !ref_digit(s[start + 1]) || !ref_digit(s[start + 2])) return -1;
      m->status = (s[start] - '0') * 100 + (s[start + 1] - '0') * 10 + (s[start + 2] - '0');
      state = RS_REASON;
      start = i;
      break;
    case RS_REASON:
      if (c == '\r' || c == '\n')
      {
        m->reason = (ref_slice) {start, i - start};
        if (c == '\r') { state = RS_REASONLF; i++; break; }
        goto reason;
      }
      if (ref_ctl(c)) return -1;
      i++;
      break;
    case RS_REASONLF:
      if (c != '\n') return -1;
    reason:
      if (m->reason.len && s[m->reason.off] != ' ') return -1;
      while (m->reason.len && s[m->reason.off] == ' ') { m->reason.off++; m->reason.len--; }
      state = RS_FIELD;
      i++;
      break;
    case RS_FIELD:
      if (c == '\r') { state = RS_LASTLF; i++; break; }
      if (c == '\n') return i + 1;
      if (m->n == max) return -1;
      if (m->n && ref_blank(c)) { m->name[m->n] = (ref_slice) {-1, 0}; state = RS_VALUE; start = i; break; }
      state = RS_NAME;
      start = i;
      break;
    case RS_NAME:
      if (c == ':')
      {
        if (i == start) return -1;
        m->name[m->n] = (ref_slice) {start, i - start};
        state = RS_LEAD;
      }
      else if (!ref_tchar(c)) return -1;
      i++;
      break;
    case RS_LEAD:
      if (ref_blank(c)) i++;
      else { state = RS_VALUE; start = i; }
      break;
    case RS_VALUE:
      if (c == '\r' || c == '\n')
      {
        int e = i;
        while (e > start && ref_blank(s[e - 1])) e--;
        m->value[m->n] = (ref_slice) {start, e - start};
        if (c == '\r') { state = RS_VALUELF; i++; break; }
        m->n++;
        state = RS_FIELD;
        i++;
        break;
      }
      if (ref_ctl(c)) return -1;
      i++;
      break;
    case RS_VALUELF:
      if (c != '\n') return -1;
      m->n++;
      state = RS_FIELD;
      i++;
      break;
    case RS_LASTLF:
      return c == '\n' ? i + 1 : -1;
    }
  }
  return -2;
}

static inline int ref_request(const void *s, int n, int max, ref_msg *m) { return ref_parse(RS_BLANKLINE, s, n, max, m); }
static inline int ref_response(const void *s, int n, int max, ref_msg *m) { return ref_parse(RS_RVERSION, s, n, max, m); }
static inline int ref_headers(const void *s, int n, int max, ref_msg *m) { return ref_parse(RS_FIELD, s, n, max, m); }
#endif
