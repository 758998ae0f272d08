------------------------------- MODULE Maint -------------------------------
(* Maintenance of the files of a grid: clean-up, copying, extracting.        *)
(* A file: [d, f, c, from, n, age, cv, burn]: directory relative to the grid *)
(* (ending in "/"), file name, content (as originally written, from line     *)
(* from + 1), number of lines, age (days), for convergence files R-1, for    *)
(* properties files whether burn in is recorded as removed.                  *)
(* A run: as in Select, with rel (directory of its chains); the analysis is  *)
(* in rel \o "dist/".                                                        *)
EXTENDS Select
DistDir(x) == x.rel \o "dist/"
\* files of importance sampled runs are next to those of the run they start from
NamedFor(f, n) == StartsWith(f, n \o ".") \/ StartsWith(f, n \o "_")
Owns(x, f, items) == NamedFor(f, x.name) /\ ~\E k \in 1..Len(items): Len(items[k].name) > Len(x.name) /\ items[k].rel = x.rel /\ NamedFor(f, items[k].name)
FileAt(fs, d, f) == {u \in fs: u.d = d /\ u.f = f}
CvOf(x, fs) == LET s == FileAt(fs, DistDir(x), x.name \o ".converge") IN IF \E u \in s: u.n > 0 THEN (CHOOSE u \in s: TRUE).cv ELSE -1
ConvergedRun(x, fs, r, unknown) == LET c == CvOf(x, fs) IN IF c < 0 THEN unknown ELSE c <= r
\* the shell patterns given are for what follows the name of the run
Rest(x, f) == Mid(f, Len(x.name) + 1, Len(f))
AnyGlob(ps, s) == \E k \in 1..Len(ps): Glob(ps[k], s)

(* -------- clean-up: o: [ext, chainnum, empty, dist, conv, confirm] *)
CleanPatterns(o) == IF o.chainnum # "" THEN MapSeq(LAMBDA e: "_" \o o.chainnum \o "." \o e, o.ext)
                    ELSE MapSeq(LAMBDA e: "." \o e, o.ext) \o MapSeq(LAMBDA e: "_*." \o e, o.ext)
Cleans(x, u, items, fs, f, o) ==
    /\ Matches(x, f)
    /\ (o.conv > 0 => ~ConvergedRun(x, fs, o.conv, TRUE))
    /\ (u.d = DistDir(x) \/ (u.d = x.rel /\ ~o.dist))
    /\ Owns(x, u.f, items)
    /\ AnyGlob(CleanPatterns(o), Rest(x, u.f))
    /\ (o.empty => u.n = 0)
\* convergence is that when a run's turn comes: clean-up of a run only deletes its own files
ToClean(items, fs, f, o) == {u \in fs: \E k \in 1..Len(items): Cleans(items[k], u, items, fs, f, o)}
Cleaned(items, fs, f, o) == IF o.confirm THEN fs \ ToClean(items, fs, f, o) ELSE fs

(* -------- copying: o: [chains, dist, ext, skip, maxage, conv, burn (quarters), link, config] *)
ChainFile(x, n) == x.name \o "_" \o ToString(n) \o ".txt"
HasChain(x, fs, n) == FileAt(fs, x.rel, ChainFile(x, n)) # {}
NumChains(x, fs) == CHOOSE m \in 0..20: (\A n \in 1..m: HasChain(x, fs, n)) /\ ~HasChain(x, fs, m + 1)
Recent(u, o) == o.maxage = 0 \/ u.age < o.maxage
FirstChain(x, fs) == CHOOSE u \in FileAt(fs, x.rel, ChainFile(x, 1)): TRUE
CopiesChains(x, fs, o) == o.chains /\ HasChain(x, fs, 1) /\ FirstChain(x, fs).n > 0 /\ Recent(FirstChain(x, fs), o)
Props(x, fs) == FileAt(fs, x.rel, x.name \o ".properties.ini")
HasBurn(x, fs) == ~x.imp /\ ~\E u \in Props(x, fs): u.burn
Burns(x, fs, o) == o.burn > 0 /\ HasBurn(x, fs)
Plain(u, o) == [d |-> u.d, f |-> u.f, c |-> u.c, from |-> u.from, n |-> u.n, burn |-> u.burn, link |-> o.link]
Burned(u, o) == LET k == (u.n * o.burn) \div 4 IN [d |-> u.d, f |-> u.f, c |-> u.c, from |-> u.from + k, n |-> u.n - k, burn |-> FALSE, link |-> FALSE]
ChainsOf(x, fs, o) == IF ~CopiesChains(x, fs, o) THEN {}
    ELSE {LET u == CHOOSE u \in FileAt(fs, x.rel, ChainFile(x, n)): TRUE IN IF Burns(x, fs, o) THEN Burned(u, o) ELSE Plain(u, o) : n \in 1..NumChains(x, fs)}
NewProps(x, fs, o) == CopiesChains(x, fs, o) /\ Burns(x, fs, o)
PropsOf(x, fs, o) == IF ~NewProps(x, fs, o) THEN {}
    ELSE LET s == Props(x, fs) IN {[d |-> x.rel, f |-> x.name \o ".properties.ini", c |-> IF s = {} THEN 0 ELSE (CHOOSE u \in s: TRUE).c, from |-> 0, n |-> -1, burn |-> TRUE, link |-> FALSE]}
Wanted(x, u, items, o) == Owns(x, u.f, items) /\ AnyGlob(o.ext, Rest(x, u.f)) /\ ~AnyGlob(o.skip, Rest(x, u.f)) /\ Recent(u, o)
InfoOf(x, fs, items, o) == {Plain(u, o) : u \in {u \in fs: (u.d = x.rel \/ (u.d = DistDir(x) /\ o.dist)) /\ Wanted(x, u, items, o)
                                                            /\ ~(NewProps(x, fs, o) /\ u.d = x.rel /\ u.f = x.name \o ".properties.ini")}}
Copied(items, fs, f, o) ==
    LET xs == {items[k] : k \in {k \in 1..Len(items): Matches(items[k], f) /\ (o.conv > 0 => ConvergedRun(items[k], fs, o.conv, FALSE))}} IN
    IF o.dryrun THEN {} ELSE
    (IF o.config THEN {Plain(u, o) : u \in {u \in fs: u.d = "config/"}} ELSE {})
    \cup UNION {InfoOf(x, fs, items, o) \cup ChainsOf(x, fs, o) \cup PropsOf(x, fs, o) : x \in xs}
\* what is in the target afterwards (also files that were there before)
Onto(old, new) == {u \in old: ~\E v \in new: v.d = u.d /\ v.f = u.f} \cup new

(* -------- extracting: o: [ext, conv, norm]; runs have nname, their normalized name *)
ExtPattern(e) == IF IndexFrom(e, ".", 1) = 0 THEN "." \o e ELSE e
Extracted(items, fs, f, o) ==
    LET xs == {items[k] : k \in {k \in 1..Len(items): Matches(items[k], f) /\ (o.conv > 0 => ConvergedRun(items[k], fs, o.conv, FALSE))}} IN
    UNION {{[d |-> "", f |-> IF o.norm THEN x.nname \o Rest(x, u.f) ELSE u.f, c |-> u.c, from |-> u.from, n |-> u.n, burn |-> u.burn, link |-> FALSE] :
             u \in {u \in fs: u.d = DistDir(x) /\ Owns(x, u.f, items) /\ AnyGlob(MapSeq(LAMBDA e: ExtPattern(e), o.ext), Rest(x, u.f))}} : x \in xs}

(* -------- renaming parameters: m: <<[old, new, label], ..>> (label "": kept), labels: <<[n, label]..>> *)
LastFor(m, n) == {k \in 1..Len(m): m[k].old = n /\ \A j \in (k + 1)..Len(m): m[j].old # n}
RenameOne(p, m, labels) ==
    LET K == LastFor(m, p.name)
        r == IF K = {} THEN [new |-> p.name, label |-> ""] ELSE LET k == CHOOSE k \in K: TRUE IN [new |-> m[k].new, label |-> m[k].label]
        L == {k \in 1..Len(labels): labels[k].n = r.new}
        lab == IF L # {} THEN labels[CHOOSE k \in L: TRUE].label ELSE IF r.label # "" THEN r.label ELSE p.label IN
    [p EXCEPT !.name = r.new, !.label = lab]
RenameAll(ps, m, labels) == MapSeq(LAMBDA p: RenameOne(p, m, labels), ps)
=============================================================================
