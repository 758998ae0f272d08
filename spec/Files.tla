------------------------------- MODULE Files -------------------------------
(* Which files are the chain files of a root, and which root names find      *)
(* which chains.  A tree is a function: directory path |-> set of file names *)
(* ("" is the top directory).                                                *)
EXTENDS Str
\* number of the chain that file name f is of root base, or -1
ChainNum(f, base, sep, ext) ==
    IF f = base \o ext THEN 0
    ELSE IF /\ StartsWith(f, base \o sep) /\ EndsWith(f, ext)
            /\ IsDigits(Mid(f, Len(base \o sep) + 1, Len(f) - Len(ext)))
         THEN ToNat(Mid(f, Len(base \o sep) + 1, Len(f) - Len(ext))) ELSE -1
\* root names that end in a separator: files named number.txt in that directory
ChainNumDir(f, ext) == IF f = ext THEN 0
    ELSE IF EndsWith(f, ext) /\ IsDigits(Mid(f, 1, Len(f) - Len(ext))) THEN ToNat(Mid(f, 1, Len(f) - Len(ext))) ELSE -1
Wanted(n, first, last, incl, excl) ==
    /\ n >= 0 /\ n >= first /\ (last < 0 \/ n <= last)
    /\ (~incl.any \/ n \in Range_(incl.list)) /\ n \notin Range_(excl)
ChainFilesOf(files, base, sep, ext, first, last, incl, excl) ==
    {f \in files: Wanted(IF base = "" THEN ChainNumDir(f, ext) ELSE ChainNum(f, base, sep, ext), first, last, incl, excl)}
NoIncl == [any |-> FALSE, list |-> <<>>]
\* a root has chain files if its unnumbered or first chain file exists
HasChain(tree, path) ==
    /\ DirName(path) \in DOMAIN tree
    /\ \E sep \in {"_", "."}: ChainFilesOf(tree[DirName(path)], BaseName(path), sep, ".txt", 0, 1, NoIncl, <<>>) # {}
\* searching: the places where root may be found, in the top directory first
Found(tree, root) == {d \in DOMAIN tree: HasChain(tree, PathJoin(d, root))}
\* chain roots listed in a directory
RootsIn(tree, d) == {r \in {Mid(f, 1, Len(f) - Len(".paramnames")) : f \in {g \in tree[d]: EndsWith(g, ".paramnames")}}:
                         r # "" /\ HasChain(tree, PathJoin(d, r))}
\* all chains below the top directory
AllChains(tree) == UNION {{PathJoin(d, r) : r \in RootsIn(tree, d)} : d \in DOMAIN tree \ {""}}
\* names given to chains, name |-> path: one name each, which is the root name with just as
\* many leading directories as are needed, and finds its own chain
GoodNaming(tree, naming) ==
    /\ Range_([k \in 1..Len(naming) |-> naming[k][2]]) = AllChains(tree)
    /\ Cardinality({naming[k][1] : k \in 1..Len(naming)}) = Len(naming)
    /\ Cardinality({naming[k][2] : k \in 1..Len(naming)}) = Len(naming)
    /\ \A k \in 1..Len(naming): \/ naming[k][1] = naming[k][2]
                                \/ EndsWith(naming[k][2], "/" \o naming[k][1])
    /\ \A k \in 1..Len(naming): (\A p \in AllChains(tree): p # naming[k][2] => BaseName(p) # BaseName(naming[k][2]))
                                   => naming[k][1] = BaseName(naming[k][2])
Normed(name) == BagOf(Split(StrReplace(StrReplace(name, "__", "_"), "_post", ""), "_"))
=============================================================================
