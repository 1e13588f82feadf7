/* Explicit-state breadth-first search whose transition function is the real code, replayed from scratch. */
#ifndef BFS_H
#define BFS_H
#include "mc.h"

typedef struct {
  int nops, maxdepth;
  long maxstates;
  void (*reset) (void);
  int (*apply) (int op);    /* 0: not enabled here; calls mc_fail on a violation */
  uint64_t (*canon) (void);
  void (*done) (void);      /* dispose of the state */
  uint64_t salt;
} mc_bfs_t;

static void
mc_bfs (mc_bfs_t * m)
{
  int base = mc_pos (), op, i, len;
  if (mc_in_replay)
    {
      int n = mc_sh->depth;
      m->reset ();
      for (i = base; i < n; ++i)
	{
	  mc_sh->pos = i + 1;
	  if (!m->apply (mc_sh->ch[i])) break;
	}
      m->done ();
      return;
    }
  int stride = m->maxdepth + 1;
  long cap = 1024, head = 0, tail = 0;
  unsigned char * q = malloc (cap * stride);
  jmp_buf saved;
  memcpy (saved, mc_jmp, sizeof (saved));
  m->reset ();
  mc_state (m->canon () ^ m->salt);
  m->done ();
  q[0] = 0; tail = 1;
  for (head = 0; head < tail; ++head)
    {
      if (m->maxstates && tail > m->maxstates) { mc_sh->capped = mc_sh->capped ? mc_sh->capped : 1; break; }
      if ((head & 63) == 0 && mc_now () > mc_deadline) { mc_sh->capped = 1; break; }
      len = q[head * stride];
      if (len >= m->maxdepth) continue;
      for (op = 0; op < m->nops; ++op)
	{
	  volatile int enabled = 0, failed = 0;
	  for (i = 0; i < len; ++i) { mc_sh->ch[base + i] = q[head * stride + 1 + i]; mc_sh->w[base + i] = 0; }
	  mc_sh->ch[base + len] = op; mc_sh->w[base + len] = 0;
	  mc_sh->pos = mc_sh->depth = base + len + 1;
	  ++mc_sh->evals;
	  int rc = setjmp (mc_jmp);
	  if (rc == 0)
	    {
	      m->reset ();
	      for (i = 0; i < len; ++i) m->apply (q[head * stride + 1 + i]);
	      enabled = m->apply (op);
	    }
	  else
	    {
	      failed = 1;
	      if (rc == 1) mc_record (mc_sh, mc_fail_desc);
	    }
	  if (enabled && !failed)
	    {
	      ++mc_sh->transitions;
	      ++mc_sh->traces; /* the whole history ran on the real code and agreed with the model */
	      if (mc_sh->transitions == 1000) memcpy (mc_sh->sample, mc_sh->note, sizeof (mc_sh->sample));
	      if (mc_state (m->canon () ^ m->salt))
		{
		  if (tail >= cap) q = realloc (q, (cap *= 2) * stride);
		  memcpy (&q[tail * stride], &q[head * stride], stride);
		  q[tail * stride] = len + 1;
		  q[tail * stride + 1 + len] = op;
		  ++tail;
		  if (len + 1 > mc_sh->maxdepth) mc_sh->maxdepth = len + 1;
		}
	    }
	  m->done ();
	  if (mc_sh->nviol >= MC_MAXVIOL) break;
	}
      if (mc_sh->nviol >= MC_MAXVIOL) break;
    }
  memcpy (mc_jmp, saved, sizeof (saved));
  mc_sh->pos = mc_sh->depth = base;
  free (q);
}
#endif
