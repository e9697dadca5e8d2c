------------------------------ MODULE Announce ------------------------------
(* Progress messages: nested blocks, one line per message, ".." per open      *)
(* block, closing text on the opening line of a block without inner messages. *)
EXTENDS Integers, Sequences
RECURSIVE Dots(_)
Dots(n) == IF n = 0 THEN "" ELSE ".." \o Dots(n - 1)
RECURSIVE Dashes(_)
Dashes(n) == IF n = 0 THEN "" ELSE "-" \o Dashes(n - 1)
MaxLevel == 16
BannerWidth == 60
\* lines: finished lines; cur: the line still open, or "" ; vis: open blocks visible at the verbosity they were opened with
Fresh == [lev |-> 0, open |-> FALSE, cur |-> "", lines |-> <<>>, verb |-> 0]
Close(s) == IF s.open THEN [s EXCEPT !.open = FALSE, !.cur = "", !.lines = Append(@, s.cur)] ELSE s
Line(s, t) == [s EXCEPT !.lines = Append(@, t)]
Msg(s, t) == Line(Close(s), Dots(s.lev) \o t)
Banner(t) == IF t = "" THEN Dashes(BannerWidth)
             ELSE IF Len(t) + 2 > BannerWidth - 2 THEN "--" \o t \o "--"
             ELSE "-- " \o t \o " " \o Dashes(BannerWidth - Len(t) - 4)
Do(s, e) ==
  IF e.op = "verbosity" THEN [s EXCEPT !.verb = e.v]
  ELSE IF "v" \in DOMAIN e /\ e.v > s.verb THEN s
  ELSE CASE e.op = "start" -> IF s.lev = MaxLevel THEN s ELSE [Close(s) EXCEPT !.open = TRUE, !.cur = Dots(s.lev) \o e.t, !.lev = @ + 1]
         [] e.op = "end"   -> IF s.lev = 0 THEN s
                              ELSE IF s.open THEN [Line([s EXCEPT !.open = FALSE, !.cur = ""], s.cur \o ".. " \o e.t) EXCEPT !.lev = @ - 1]
                              ELSE [Msg(s, e.t) EXCEPT !.lev = @ - 1]
         [] e.op = "quiet" -> IF s.lev = 0 THEN s ELSE [s EXCEPT !.lev = @ - 1]     \* a block closed without text
         [] e.op = "msg"   -> Msg(s, e.t)
         [] e.op = "banner" -> Line(Close(s), Banner(e.t))
=============================================================================
