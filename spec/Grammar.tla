------------------------------ MODULE Grammar ------------------------------
(* Syntax of command lines, addresses, parameters and reply lines, as functions from byte
   strings to abstract results.  Parsers work on positions (1-based); 0 means "no match".
   Every parser takes the longest match of each repetition, as the implementation does. *)
EXTENDS Bytes, FiniteSets

V_DATA == <<68,65,84,65>>
V_EHLO == <<69,72,76,79>>
V_EXPN == <<69,88,80,78>>
V_HELO == <<72,69,76,79>>
V_HELP == <<72,69,76,80>>
V_NOOP == <<78,79,79,80>>
V_QUIT == <<81,85,73,84>>
V_RSET == <<82,83,69,84>>
V_VRFY == <<86,82,70,89>>
V_MAIL == <<77,65,73,76,32,70,82,79,77,58>>   \* "MAIL FROM:"
V_RCPT == <<82,67,80,84,32,84,79,58>>   \* "RCPT TO:"
T_IPV6 == <<91,73,80,118,54,58>>   \* "[IPv6:"

------------------------------------------------------------------------------
(* Hosts: a name (labels separated by dots) or an address literal.
   A host is [hk, h, e]: kind "host"/"v4"/"v6", its value, and the position after it. *)

NoHost == [hk |-> "none", h |-> <<>>, e |-> 0]

LabelEnd(l, p) ==
    IF p <= Len(l) /\ l[p] \in Alnum THEN RunEnd(l, p + 1, AlnumDash) ELSE 0

RECURSIVE NameEndFrom(_, _)
NameEndFrom(l, e) ==      \* e: end of the labels matched so far
    IF e <= Len(l) /\ l[e] = DOT /\ LabelEnd(l, e + 1) # 0
    THEN NameEndFrom(l, LabelEnd(l, e + 1))
    ELSE e
NameEnd(l, p) == IF LabelEnd(l, p) = 0 THEN 0 ELSE NameEndFrom(l, LabelEnd(l, p))

RECURSIVE Number(_, _, _)
HexVal(c) == IF c \in Digits THEN c - 48 ELSE Lower(c) - 87
Number(s, base, acc) ==
    IF s = <<>> THEN acc ELSE Number(Tail(s), base, acc * base + HexVal(Head(s)))

(* The pieces of s between separators c (one piece if there is no separator). *)
RECURSIVE Split(_, _)
Split(s, c) ==
    LET p == FindByte(s, 1, c)
    IN IF p = 0 THEN <<s>> ELSE <<Take(s, p - 1)>> \o Split(Drop(s, p), c)

IsOctet(s) == /\ Len(s) \in 1..3
              /\ \A i \in 1..Len(s) : s[i] \in Digits
              /\ (Len(s) > 1 => s[1] # 48)
              /\ Number(s, 10, 0) <= 255
IsIpv4(s) == LET q == Split(s, DOT) IN Len(q) = 4 /\ \A i \in 1..4 : IsOctet(q[i])
Ipv4(s)   == [i \in 1..4 |-> Number(Split(s, DOT)[i], 10, 0)]

IsHexGroup(s) == Len(s) \in 1..4 /\ \A i \in 1..Len(s) : s[i] \in HexDigit
(* colon-separated groups; the last piece may be a dotted IPv4 address if v4ok *)
IsGroups(s, v4ok) ==
    LET q == Split(s, COLON)
    IN \A i \in 1..Len(q) : IsHexGroup(q[i]) \/ (v4ok /\ i = Len(q) /\ IsIpv4(q[i]))
RECURSIVE GroupVals(_)
GroupVals(q) ==
    IF q = <<>> THEN <<>>
    ELSE (IF IsHexGroup(q[1]) THEN <<Number(q[1], 16, 0)>>
          ELSE LET a == Ipv4(q[1]) IN <<a[1] * 256 + a[2], a[3] * 256 + a[4]>>)
         \o GroupVals(Tail(q))
Groups(s) == IF s = <<>> THEN <<>> ELSE GroupVals(Split(s, COLON))
Zeros(n) == [i \in 1..n |-> 0]

IsIpv6(s) ==
    LET p == FindPair(s, 1, COLON, COLON)
    IN IF p = 0 THEN IsGroups(s, TRUE) /\ Len(Groups(s)) = 8
       ELSE LET hd == Take(s, p - 1)   tl == Drop(s, p + 1)
            IN /\ hd = <<>> \/ IsGroups(hd, FALSE)
               /\ tl = <<>> \/ IsGroups(tl, TRUE)
               /\ Len(Groups(hd)) + Len(Groups(tl)) <= 7
Ipv6(s) ==
    LET p == FindPair(s, 1, COLON, COLON)
    IN IF p = 0 THEN Groups(s)
       ELSE LET hd == Groups(Take(s, p - 1))   tl == Groups(Drop(s, p + 1))
            IN hd \o Zeros(8 - Len(hd) - Len(tl)) \o tl

Host(l, p) ==
    IF NameEnd(l, p) # 0
    THEN [hk |-> "host", h |-> SubSeq(l, p, NameEnd(l, p) - 1), e |-> NameEnd(l, p)]
    ELSE IF ~(p <= Len(l) /\ l[p] = LBRA) \/ FindByte(l, p, RBRA) = 0 THEN NoHost
    ELSE LET q == FindByte(l, p, RBRA)
             six == SubSeq(l, p + 6, q - 1)
             four == SubSeq(l, p + 1, q - 1)
         IN IF TagAt(l, p, T_IPV6) /\ IsIpv6(six)
            THEN [hk |-> "v6", h |-> Ipv6(six), e |-> q + 1]
            ELSE IF IsIpv4(four) THEN [hk |-> "v4", h |-> Ipv4(four), e |-> q + 1]
            ELSE NoHost

------------------------------------------------------------------------------
(* Mailboxes and paths.  A mailbox is [lo, hk, h, e]: local part as written, host. *)

NoBox == [lo |-> <<>>, hk |-> "none", h |-> <<>>, e |-> 0]

AtomEnd(l, p) == LET e == RunEnd(l, p, Atext) IN IF e = p THEN 0 ELSE e
RECURSIVE DotStringFrom(_, _)
DotStringFrom(l, e) ==
    IF e <= Len(l) /\ l[e] = DOT /\ AtomEnd(l, e + 1) # 0
    THEN DotStringFrom(l, AtomEnd(l, e + 1)) ELSE e
DotStringEnd(l, p) == IF AtomEnd(l, p) = 0 THEN 0 ELSE DotStringFrom(l, AtomEnd(l, p))

RECURSIVE QuotedFrom(_, _)
QuotedFrom(l, p) ==       \* p: next position inside the quotes
    IF p > Len(l) THEN 0
    ELSE IF l[p] = DQUOTE THEN p + 1
    ELSE IF l[p] = BACKSLASH
         THEN IF p + 1 <= Len(l) /\ l[p + 1] \in 32..126 THEN QuotedFrom(l, p + 2) ELSE 0
    ELSE IF l[p] \in 32..126 THEN QuotedFrom(l, p + 1) ELSE 0
QuotedEnd(l, p) == IF p <= Len(l) /\ l[p] = DQUOTE THEN QuotedFrom(l, p + 1) ELSE 0

LocalEnd(l, p) == IF QuotedEnd(l, p) # 0 THEN QuotedEnd(l, p) ELSE DotStringEnd(l, p)

Box(l, p) ==
    LET q == LocalEnd(l, p)
    IN IF q = 0 THEN NoBox
       ELSE LET lo == SubSeq(l, p, q - 1)
                h == IF q <= Len(l) /\ l[q] = AT THEN Host(l, q + 1) ELSE NoHost
            IN IF h.e # 0 THEN [lo |-> lo, hk |-> h.hk, h |-> h.h, e |-> h.e]
               ELSE [lo |-> lo, hk |-> "none", h |-> <<>>, e |-> q]

(* "@host,@host:"; the list may be empty, the colon may not.  0 if there is no route. *)
RECURSIVE RouteFrom(_, _)
RouteFrom(l, e) ==        \* e: end of the hops matched so far
    IF e > Len(l) THEN 0
    ELSE IF l[e] = COLON THEN e + 1
    ELSE IF l[e] = COMMA /\ e + 1 <= Len(l) /\ l[e + 1] = AT /\ Host(l, e + 2).e # 0
         THEN RouteFrom(l, Host(l, e + 2).e)
    ELSE 0
RouteEnd(l, p) ==
    IF p > Len(l) THEN 0
    ELSE IF l[p] = COLON THEN p + 1
    ELSE IF l[p] = AT /\ Host(l, p + 1).e # 0 THEN RouteFrom(l, Host(l, p + 1).e)
    ELSE 0
EmptyRoute(l, p) == p <= Len(l) /\ l[p] = COLON

InnerPath(l, p) == IF RouteEnd(l, p) # 0 THEN Box(l, RouteEnd(l, p)) ELSE Box(l, p)

Path(l, p) ==
    IF p <= Len(l) /\ l[p] = LT
    THEN LET b == InnerPath(l, p + 1)
         IN IF b.e # 0 /\ b.e <= Len(l) /\ l[b.e] = GT THEN [b EXCEPT !.e = b.e + 1] ELSE NoBox
    ELSE InnerPath(l, p)

(* Whole-string mailbox, as used by the address parser. *)
Mailbox(s) == LET b == Box(s, 1) IN IF b.e = Len(s) + 1 THEN b ELSE NoBox

(* Canonical local part: content of the quotes, unescaped. *)
RECURSIVE Unescape(_)
Unescape(s) ==
    IF s = <<>> THEN <<>>
    ELSE IF s[1] = BACKSLASH /\ Len(s) > 1 THEN <<s[2]>> \o Unescape(Drop(s, 2))
    ELSE <<s[1]>> \o Unescape(Tail(s))
Canonical(lo) == IF lo[1] # DQUOTE THEN lo ELSE Unescape(SubSeq(lo, 2, Len(lo) - 1))

------------------------------------------------------------------------------
(* Parameters: [ps, e], ps the sequence of <<key, value>>, value <<>> if there is none. *)

KeyEnd(l, p) == IF p <= Len(l) /\ l[p] \in Alnum THEN RunEnd(l, p + 1, AlnumDash) ELSE 0

RECURSIVE Params(_, _, _)
Params(l, p, acc) ==
    LET k == RunEnd(l, p, Blank)
        ke == KeyEnd(l, k)
    IN IF k = p \/ ke = 0 THEN [ps |-> acc, e |-> p]
       ELSE LET hasval == ke + 1 <= Len(l) /\ l[ke] = EQU /\ l[ke + 1] \in ParamVal
                ve == IF hasval THEN RunEnd(l, ke + 1, ParamVal) ELSE ke
                val == IF hasval THEN SubSeq(l, ke + 1, ve - 1) ELSE <<>>
            IN Params(l, ve, Append(acc, <<SubSeq(l, k, ke - 1), val>>))

------------------------------------------------------------------------------
(* Commands.  Uniform result: k kind ("err" if none), nul for the null sender, the
   mailbox (lo, hk, h) or host (hk, h), parameters ps, free text s.                    *)

Err == [k |-> "err", nul |-> FALSE, lo |-> <<>>, hk |-> "none", h |-> <<>>, ps |-> <<>>, s |-> <<>>]
Plain(kind) == [Err EXCEPT !.k = kind]

(* l[p..] is optional blanks then CRLF and nothing else *)
EndsAt(l, p) == LET q == RunEnd(l, p, Blank) IN TagAt(l, q, CRLF) /\ q + 1 = Len(l)

NoArg(l, kind) == IF EndsAt(l, 5) THEN Plain(kind) ELSE Err

(* greeting commands: blanks may surround every token *)
Greeting(l, p, kind) ==
    LET h == Host(l, RunEnd(l, p + 4, Blank))
    IN IF h.e # 0 /\ EndsAt(l, h.e) THEN [Plain(kind) EXCEPT !.hk = h.hk, !.h = h.h] ELSE Err

(* the text runs to the first CRLF, which must end the line *)
Text(l, p, kind) ==
    LET q == FindCrlf(l, p)
    IN IF q # 0 /\ q + 1 = Len(l) THEN [Plain(kind) EXCEPT !.s = SubSeq(l, p, q - 1)] ELSE Err
TextArg(l, kind) == IF Len(l) >= 5 /\ l[5] \in Blank THEN Text(l, 6, kind) ELSE Err
OptText(l, kind) == IF Len(l) >= 5 /\ l[5] \in Blank THEN Text(l, 6, kind) ELSE Text(l, 5, kind)

PathCommand(l, p0, kind) ==
    LET p == RunEnd(l, p0, Blank)
        nul == kind = "mail" /\ TagAt(l, p, <<LT, GT>>)
        b == IF nul THEN [NoBox EXCEPT !.e = p + 2] ELSE Path(l, p)
    IN IF b.e = 0 THEN Err
       ELSE LET ps == Params(l, b.e, <<>>)
            IN IF EndsAt(l, ps.e)
               THEN [k |-> kind, nul |-> nul, lo |-> b.lo, hk |-> b.hk, h |-> b.h, ps |-> ps.ps, s |-> <<>>]
               ELSE Err

Parse(l) ==
    IF TagNoCase(l, 1, V_DATA) THEN NoArg(l, "data")
    ELSE IF TagNoCase(l, 1, V_EXPN) THEN TextArg(l, "expn")
    ELSE IF TagNoCase(l, 1, V_HELP) THEN OptText(l, "help")
    ELSE IF TagNoCase(l, 1, V_MAIL) THEN PathCommand(l, 11, "mail")
    ELSE IF TagNoCase(l, 1, V_NOOP) THEN OptText(l, "noop")
    ELSE IF TagNoCase(l, 1, V_QUIT) THEN NoArg(l, "quit")
    ELSE IF TagNoCase(l, 1, V_RCPT) THEN PathCommand(l, 9, "rcpt")
    ELSE IF TagNoCase(l, 1, V_RSET) THEN NoArg(l, "rset")
    ELSE IF TagNoCase(l, 1, V_VRFY) THEN TextArg(l, "vrfy")
    ELSE LET p == RunEnd(l, 1, Blank)
         IN IF TagNoCase(l, p, V_EHLO) THEN Greeting(l, p, "ehlo")
            ELSE IF TagNoCase(l, p, V_HELO) THEN Greeting(l, p, "helo")
            ELSE Err

(* Lines the implementation accepts though it need not (its own to-do list says so): the
   verb glued to its argument, blanks before a greeting verb, an empty argument to EXPN or
   VRFY, an empty source route.  For these, rejection is allowed as well.              *)
Lenient(l) ==
    LET r == Parse(l)   p == RunEnd(l, 1, Blank)
    IN \/ r.k \in {"ehlo", "helo"} /\ (p # 1 \/ l[5] \notin Blank)
       \/ r.k \in {"help", "noop"} /\ l[5] \notin Blank /\ r.s # <<>>
       \/ r.k \in {"expn", "vrfy"} /\ r.s = <<>>
       \/ r.k = "mail" /\ LET q == RunEnd(l, 11, Blank)
                          IN EmptyRoute(l, q) \/ (l[q] = LT /\ EmptyRoute(l, q + 1))
       \/ r.k = "rcpt" /\ LET q == RunEnd(l, 9, Blank)
                          IN EmptyRoute(l, q) \/ (l[q] = LT /\ EmptyRoute(l, q + 1))

(* Parameters as a set; of a repeated keyword any one of the values may be kept. *)
ParamSet(ps) == {ps[i] : i \in 1..Len(ps)}
ParamsMatch(ps, got) ==      \* got: set of <<key, value>>
    /\ got \subseteq ParamSet(ps)
    /\ {x[1] : x \in got} = {x[1] : x \in ParamSet(ps)}
    /\ Cardinality(got) = Cardinality({x[1] : x \in ParamSet(ps)})

------------------------------------------------------------------------------
(* Reply lines. *)

Code3(c) == <<48 + (c \div 100), 48 + ((c \div 10) % 10), 48 + (c % 10)>>
ReplyLine(c, last, t) == Code3(c) \o <<IF last THEN SP ELSE DASH>> \o t \o CRLF
MaxText == 506

IsReplyLine(l) ==
    /\ Len(l) >= 6
    /\ \A i \in 1..3 : l[i] \in Digits
    /\ l[4] \in {SP, DASH}
    /\ FindCrlf(l, 5) = Len(l) - 1
ReplyCodeOf(l) == Number(Take(l, 3), 10, 0)
ReplyLast(l) == l[4] = SP
ReplyTextOf(l) == SubSeq(l, 5, Len(l) - 2)

(* A reply: sequence of lines, same code, only the last marked last, all short enough. *)
RECURSIVE ReplyLines(_)
ReplyLines(b) ==        \* the CRLF-terminated lines of b; <<>> appended if b is not whole lines
    IF b = <<>> THEN <<>>
    ELSE LET p == FindCrlf(b, 1)
         IN IF p = 0 THEN <<<<>>>> ELSE <<Take(b, p + 1)>> \o ReplyLines(Drop(b, p + 1))
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

IsReply(b, c, t) ==
    LET ls == ReplyLines(b)
    IN /\ Len(ls) >= 1
       /\ \A i \in 1..Len(ls) :
            /\ IsReplyLine(ls[i])
            /\ Len(ls[i]) <= 512
            /\ ReplyCodeOf(ls[i]) = c
            /\ ReplyLast(ls[i]) = (i = Len(ls))
            /\ \A j \in 5..(Len(ls[i]) - 2) : ls[i][j] \in ReplyText
       /\ Concat([i \in 1..Len(ls) |-> ReplyTextOf(ls[i])]) = t

(* The encoding the implementation uses: full chunks of MaxText bytes. *)
RECURSIVE EncodeReply(_, _)
EncodeReply(c, t) ==
    IF Len(t) <= MaxText THEN ReplyLine(c, TRUE, t)
    ELSE ReplyLine(c, FALSE, Take(t, MaxText)) \o EncodeReply(c, Drop(t, MaxText))
=============================================================================
