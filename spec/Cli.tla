-------------------------------- MODULE Cli --------------------------------
(* The command line: what a list of arguments asks for, and what must come  *)
(* of it.  Written from the usage text of tzcompiler.py.                    *)
EXTENDS Str, SequencesExt, FiniteSetsExt, Functions, TLC

Kind == [actions |-> "str", languages |-> "str", input_dir |-> "str", scope |-> "scope",
         start_year |-> "int", until_year |-> "int", tiny_base_year |-> "int", granularity |-> "int",
         until_at_granularity |-> "int", offset_granularity |-> "int", delta_granularity |-> "int",
         strict |-> "flag", nostrict |-> "flag", db_namespace |-> "str", compress |-> "flag",
         nocompress |-> "flag", json_file |-> "str", tz_version |-> "str", output_dir |-> "str",
         ignore_buf_size_too_large |-> "flag", include_list |-> "str", skip_bufestimator |-> "flag", help |-> "flag"]
Required == {"actions", "languages", "input_dir", "scope", "tz_version"}
None == [f \in {} |-> ""]
(* An option may be shortened as long as it is unmistakable.                *)
Resolve(name) ==
  IF name \in DOMAIN Kind THEN {name} ELSE {o \in DOMAIN Kind : HasPrefix(o, name)}
ValueOk(o, v) == CASE Kind[o] = "int" -> IsInt(v)
                   [] Kind[o] = "scope" -> v \in {"basic", "extended", "complete"}
                   [] OTHER -> TRUE
Put(st, o, v) == IF ValueOk(o, v) THEN [st EXCEPT !.vals = (o :> v) @@ @, !.open = ""]
                 ELSE [st EXCEPT !.err = TRUE]
Token(st, x) ==
  IF st.err THEN st
  ELSE IF st.open # "" THEN
    IF HasPrefix(x, "--") THEN [st EXCEPT !.err = TRUE] ELSE Put(st, st.open, x)
  ELSE IF ~HasPrefix(x, "--") THEN [st EXCEPT !.err = TRUE]
  ELSE LET eq == IndexOf(x, "=")
           name == IF eq = 0 THEN Drop(x, 2) ELSE SubSeq(x, 3, eq - 1)
           at == Resolve(name)
           o == CHOOSE y \in at : TRUE
       IN IF Cardinality(at) # 1 THEN [st EXCEPT !.err = TRUE]
          ELSE IF Kind[o] = "flag" THEN
            IF eq # 0 THEN [st EXCEPT !.err = TRUE]
            ELSE CASE o = "strict" -> [st EXCEPT !.strict = TRUE]
                   [] o = "nostrict" -> [st EXCEPT !.strict = FALSE]
                   [] o = "compress" -> [st EXCEPT !.compress = TRUE]
                   [] o = "nocompress" -> [st EXCEPT !.compress = FALSE]
                   [] OTHER -> [st EXCEPT !.flags = @ \cup {o}]
          ELSE IF eq # 0 THEN Put(st, o, Drop(x, eq)) ELSE [st EXCEPT !.open = o]
Parsed(argv) == FoldLeft(Token, [open |-> "", err |-> FALSE, vals |-> None, flags |-> {}, strict |-> TRUE, compress |-> TRUE], argv)

SetOf(s) == Range(Split(s, ","))
Actions == {"zonedb", "json", "zonelist"}
Languages == {"arduino", "c", "python", "go"}
Get(p, o, d) == IF o \in DOMAIN p.vals THEN p.vals[o] ELSE d
GetInt(p, o, d) == IF o \in DOMAIN p.vals THEN IntOf(p.vals[o]) ELSE d
(* A granularity of 0 is one not given.                                     *)
Gran(p, o, d) ==
  IF GetInt(p, "granularity", 0) # 0 THEN GetInt(p, "granularity", 0)
  ELSE IF GetInt(p, o, 0) # 0 THEN GetInt(p, o, 0) ELSE d

(* The lines of an include list that name something.                        *)
Trimmed(s) == LET ink == {i \in 1..Len(s) : Ch(s, i) \notin White} IN
              IF ink = {} THEN "" ELSE SubSeq(s, Min(ink), Max(ink))
Listed(lines) == {Trimmed(lines[i]) : i \in {j \in 1..Len(lines) : Trimmed(lines[j]) # "" /\ ~HasPrefix(Trimmed(lines[j]), "#")}}

(* What the arguments ask for; files: the files and directories there are.  *)
MinStart == [basic |-> 1980, extended |-> 1974, complete |-> -32767]
Asked(argv, dirs, lists) ==
  LET p == Parsed(argv)
      usage == p.err \/ p.open # "" \/ ~(Required \subseteq DOMAIN p.vals)
      a == SetOf(p.vals["actions"])  l == SetOf(p.vals["languages"])
      scope == p.vals["scope"]  low == scope # "complete"
      s == GetInt(p, "start_year", 2000)  u == GetInt(p, "until_year", 2100)
      inc == Get(p, "include_list", "")
      out == Get(p, "output_dir", "")
      needsNs == "zonedb" \in a /\ l \cap {"arduino", "c", "go"} # {}
      bad == \/ ~(a \subseteq Actions) \/ ~(l \subseteq Languages)
             \/ s < MinStart[scope] \/ s >= u \/ u > 32767
             \/ inc # "" /\ inc \notin DOMAIN lists
             \/ p.vals["input_dir"] \notin dirs
      (* Noticed when the first file is written.                            *)
      late == \/ needsNs /\ Get(p, "db_namespace", "") = ""
              \/ ~(out = "" \/ out \in dirs)
  IN IF "help" \in p.flags THEN [what |-> "help"]
     ELSE IF usage THEN [what |-> "refused", late |-> FALSE]
     ELSE IF bad \/ late THEN [what |-> "refused", late |-> ~bad]
     ELSE [what |-> "compile", input |-> p.vals["input_dir"], output |-> out,
           cfg |-> [scope |-> scope, start |-> s, until |-> u, strict |-> p.strict, tiny |-> low,
                    base |-> GetInt(p, "tiny_base_year", 2100),
                    ug |-> Gran(p, "until_at_granularity", IF low THEN 60 ELSE 1),
                    og |-> Gran(p, "offset_granularity", IF low THEN 60 ELSE 1),
                    dg |-> Gran(p, "delta_granularity", IF low THEN 900 ELSE 60),
                    include |-> IF inc = "" THEN <<>> ELSE SetToSeq(Listed(lists[inc])),
                    compress |-> p.compress, ignore |-> "ignore_buf_size_too_large" \in p.flags],
           ns |-> Get(p, "db_namespace", ""), version |-> p.vals["tz_version"],
           json_file |-> Get(p, "json_file", "zonedb.json"),
           estimate |-> "skip_bufestimator" \notin p.flags,
           ar |-> l \cap {"arduino", "c"} # {}, go |-> "go" \in l,
           gens |-> SetToSeq((IF "zonedb" \in a THEN l ELSE {}) \cup (a \cap {"json", "zonelist"}))]

Three(ext) == {"zone_infos." \o ext, "zone_policies." \o ext, "zone_registry." \o ext}
FilesOf(g, json) ==
  CASE g = "arduino" -> Three("h") \cup Three("cpp")
    [] g = "c" -> Three("h") \cup Three("c")
    [] g = "go" -> Three("go") \cup {"zone_infos_test.go", "zone_policies_test.go", "zone_registry_test.go", "reader_test.go"}
    [] g = "python" -> Three("py")
    [] g = "json" -> {json}
    [] g = "zonelist" -> {"zones.txt"}

(***************************************************************************)
(* C19: k.argv was run; k.status is its exit status, k.files the files it   *)
(* left with their contents (digests), k.lib what the stages of the         *)
(* compiler make of the request when called one by one (digests, or ok      *)
(* FALSE when one of them refuses).                                         *)
(***************************************************************************)
C19(k, u) ==
  LET q == Asked(k.argv, Range(k.dirs), k.lists)
      all == UNION {FilesOf(g, q.json_file) : g \in Range(q.gens)}
      clauses ==
       IF q.what = "help" THEN {<<"help succeeds and makes nothing", k.status = 0 /\ DOMAIN k.files = {}>>}
       ELSE IF q.what = "refused" THEN
         {<<"an invalid command fails", k.status # 0>>,
          <<"a command that is refused at once makes nothing", q.late \/ DOMAIN k.files = {}>>}
       ELSE {<<"succeeds exactly when every stage does", (k.status = 0) = k.lib.ok>>,
             <<"a compile refused before the writing changes nothing", k.lib.begun \/ k.lib.ok \/ DOMAIN k.files = {}>>} \cup
         IF k.status # 0 \/ ~k.lib.ok THEN {} ELSE
         {<<"every file of the request and no other", DOMAIN k.files = all>>}
         \cup {<<"what was asked for: " \o f, f \in DOMAIN k.files /\ f \in DOMAIN k.lib.files /\ k.files[f] = k.lib.files[f]>> : f \in all}
  IN {x[1] : x \in {y \in clauses : ~y[2]}}
=============================================================================
