-------------------------- MODULE ConfigurationTrace --------------------------
EXTENDS TraceBase, Configuration
P == {"C30"}
Start == 0
Names == ToSet(Settings)
Caches(e) ==
  Need(e.caches = CacheNames(e.env), "config: cache files", P)
  \cup Need(\A p \in 1..Len(e.pages) : e.pages[p] = CacheSet(e.env).page, "config: cache page size", P)
  \cup Need(e.locks = Len(e.caches), "config: one lock per cache", P)
First(e) == UNION {Need(e[s] = Configured(e.env, s), "config: " \o s, P) : s \in Names} \cup Caches(e)
Again(e) == UNION {Need(e.env[VarOf[s]] # <<>> => e[s] = e.env[VarOf[s]][1], "config again: " \o s, P) : s \in Names}
            \cup Caches(e)
DoStep(st0, e) == [st |-> st0, bad |-> CASE e.k = "cfg" -> First(e) [] e.k = "cfg2" -> Again(e)]
==============================================================================
