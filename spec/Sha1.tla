-------------------------------- MODULE Sha1 --------------------------------
(***************************************************************************)
(* Initial seeds of the Gen 5 games: SHA-1 (FIPS 180-4) of a 52-byte       *)
(* message built from the console and game parameters, as a state machine  *)
(* of setters.  An unset field is <<>>.                                    *)
(***************************************************************************)
EXTENDS Prngs

\* game constants: language, version, addresses on a DS, addresses on a DSi or 3DS
NazoTable == {
    <<"ENGLISH", "BLACK", <<35741872>>, <<41288080>>>>,
    <<"ENGLISH", "WHITE", <<35741904>>, <<41288112>>>>,
    <<"ENGLISH", "BLACK2", <<35651600, 34189032, 33791465>>, <<41574256, 34189032, 33791465>>>>,
    <<"ENGLISH", "WHITE2", <<35651664, 34189096, 33791509>>, <<41574032, 34189096, 33791509>>>>,
    <<"JAPANESE", "BLACK", <<35741456>>, <<41292112>>>>,
    <<"JAPANESE", "WHITE", <<35741488>>, <<41292112>>>>,
    <<"JAPANESE", "BLACK2", <<35649968, 34187484, 33790665>>, <<41592624, 34187484, 33790665>>>>,
    <<"JAPANESE", "WHITE2", <<35650000, 34187516, 33790709>>, <<41592304, 34187516, 33790709>>>>,
    <<"GERMAN", "BLACK", <<35741680>>, <<41288432>>>>,
    <<"GERMAN", "WHITE", <<35741712>>, <<41288432>>>>,
    <<"GERMAN", "BLACK2", <<35651408, 34188840, 33791337>>, <<41574672, 34188840, 33791337>>>>,
    <<"GERMAN", "WHITE2", <<35651440, 34188872, 33791381>>, <<41574416, 34188872, 33791381>>>>,
    <<"SPANISH", "BLACK", <<35741808>>, <<41288176>>>>,
    <<"SPANISH", "WHITE", <<35741808>>, <<41288176>>>>,
    <<"SPANISH", "BLACK2", <<35651536, 34188968, 33791417>>, <<41574512, 34188968, 33791417>>>>,
    <<"SPANISH", "WHITE2", <<35651568, 34189000, 33791461>>, <<41574320, 34189000, 33791461>>>>,
    <<"FRENCH", "BLACK", <<35741744>>, <<41288240>>>>,
    <<"FRENCH", "WHITE", <<35741776>>, <<41288272>>>>,
    <<"FRENCH", "BLACK2", <<35651632, 34189064, 33791481>>, <<41574288, 34189064, 33791481>>>>,
    <<"FRENCH", "WHITE2", <<35651664, 34189096, 33791525>>, <<41574128, 34189096, 33791525>>>>,
    <<"ITALIAN", "BLACK", <<35741616>>, <<41288144>>>>,
    <<"ITALIAN", "WHITE", <<35741648>>, <<41288144>>>>,
    <<"ITALIAN", "BLACK2", <<35651344, 34188776, 33791337>>, <<41574256, 34188776, 33791337>>>>,
    <<"ITALIAN", "WHITE2", <<35651408, 34188840, 33791381>>, <<41574096, 34188840, 33791381>>>>,
    <<"KOREAN", "BLACK", <<35743664>>, <<41292112>>>>,
    <<"KOREAN", "WHITE", <<35743664>>, <<41292112>>>>,
    <<"KOREAN", "BLACK2", <<35653456, 34190860, 33793237>>, <<35653488, 34190860, 33793237>>>>,
    <<"KOREAN", "WHITE2", <<35653488, 34190892, 33793281>>, <<41572272, 34190892, 33793281>>>>
  }
Nazo(lang, game, ds) ==
  LET row == CHOOSE r \in NazoTable : r[1] = lang /\ r[2] = game
      v == IF ds = "DS" THEN row[3] ELSE row[4]
      b(x) == Bswap32(x)
  IN IF Len(v) = 1
     THEN << b(v[1]), b(v[1] + 252), b(v[1] + 252), b(v[1] + 252 + 76), b(v[1] + 252 + 76) >>
     ELSE << b(v[2]), b(v[3]), b(v[1]), b(v[1] + 84), b(v[1] + 84) >>

Bcd(n) == (16 * (n \div 10)) + (n % 10)
Word4(b3, b2, b1, b0) == Comb8(b3, b2, b1, b0)

------------------------------------------------------------------------------
\* SHA-1 of one block w[1..16] (big endian words); all five words of the digest
H0 == <<1732584193, -271733879, -1732584194, 271733878, -1009589776>>
K(t) == IF t < 20 THEN 1518500249 ELSE IF t < 40 THEN 1859775393
        ELSE IF t < 60 THEN -1894007588 ELSE -899497514
Ft(t, b, c, d) ==
  IF t < 20 THEN Or32(And32(b, c), And32(Not32(b), d))
  ELSE IF t < 40 \/ t >= 60 THEN Xor32(b, Xor32(c, d))
  ELSE Or32(And32(b, c), Or32(And32(b, d), And32(c, d)))
Schedule(w) ==
  FoldLeft(LAMBDA s, t : Append(s, Rotl32(Xor32(Xor32(s[t - 3], s[t - 8]), Xor32(s[t - 14], s[t - 16])), 1)),
           w, [i \in 1..64 |-> i + 16])
Digest(w) ==
  LET s == TLCEval(Schedule(w))
      r == FoldLeft(LAMBDA h, i :
             LET t == i - 1
                 x == Add32(Add32(Rotl32(h[1], 5), Ft(t, h[2], h[3], h[4])), Add32(h[5], Add32(s[i], K(t))))
             IN TLCEval(<<x, h[1], Rotl32(h[2], 30), h[3], h[4]>>),
           H0, Range0(80))
  IN [i \in 1..5 |-> Add32(H0[i], r[i])]

------------------------------------------------------------------------------
\* arguments: 48-bit MAC address as a 64-bit word, soft reset, v-frame, GxStat
NewSha(c, a) ==
  [cls |-> "SHA1", nazo |-> Nazo(c.lang, c.game, c.ds), ds |-> c.ds,
   mac |-> a[1], soft |-> c.soft, vframe |-> a[2][1], gx |-> a[3][1],
   button |-> <<>>, date |-> <<>>, time |-> <<>>, timer |-> <<>>, pre |-> <<>>]

Fixed(ob) == <<ob.date, ob.timer>>
Complete(ob) == <<>> \notin {ob.button, ob.date, ob.time, ob.timer}

\* the message as 16 big endian words
Message(ob) ==
  LET mac == ob.mac
      lo == And32(mac[2], 65535)
      mid == Or32(Shl32(And32(mac[1], 65535), 16), Shr32(mac[2], 16))    \* bits 16 to 47
      hour == ob.time[1]
      hb == Bcd(hour) + (IF hour >= 12 /\ ob.ds # "DS3" THEN 64 ELSE 0)  \* PM flag
  IN ob.nazo \o
     << Bswap32(Or32(Shl32(ob.timer[2], 16), ob.timer[1])),
        Xor32(lo, IF ob.soft THEN 16777216 ELSE 0),
        Xor32(Xor32(mid, Shl32(ob.vframe, 24)), ob.gx),
        Word4(Bcd(ob.date[1] - 2000), Bcd(ob.date[2]), Bcd(ob.date[3]), ob.date[4]),
        Word4(hb, Bcd(ob.time[2]), Bcd(ob.time[3]), 0),
        0, 0, ob.button[1], MinInt, 0, 416 >>

\* the initial seed: 64 bits of the digest, advanced once by the 64-bit LCG
Seed(ob) ==
  LET h == TLCEval(Digest(Message(ob))) IN L64!Step(BWGen, <<Bswap32(h[2]), Bswap32(h[1])>>)

\* setters in any order; a seed can be asked for once everything is set and the
\* precomputation belongs to the date and timer that are set now
ShaDo(ob, op, a) ==
  CASE op = "button" -> <<[ob EXCEPT !.button = a[1]], NoResult>>
    [] op = "date" -> <<[ob EXCEPT !.date = [i \in 1..4 |-> a[i][1]]], NoResult>>
    [] op = "time" -> <<[ob EXCEPT !.time = [i \in 1..3 |-> a[i][1]]], NoResult>>
    [] op = "timer" -> <<[ob EXCEPT !.timer = [i \in 1..2 |-> a[i][1]]], NoResult>>
    [] op = "pre" -> <<[ob EXCEPT !.pre = Fixed(ob)], NoResult>>
    [] op = "hash" /\ Complete(ob) /\ ob.pre = Fixed(ob) -> <<ob, Seed(ob)>>
    [] OTHER -> <<ob, Unknown>>
=============================================================================
