------------------------------ MODULE Personal ------------------------------
(***************************************************************************)
(* Game identifiers and the species tables of each game: which file, how   *)
(* long a record, and at which byte each field lies.                       *)
(***************************************************************************)
EXTENDS FlatBuffer, Shipped

Common == [hp |-> <<0, 1>>, attack |-> <<1, 1>>, defense |-> <<2, 1>>, speed |-> <<3, 1>>, special_attack |-> <<4, 1>>,
           special_defense |-> <<5, 1>>, type_1 |-> <<6, 1>>, type_2 |-> <<7, 1>>, catch_rate |-> <<8, 1>>, ev_yield |-> <<10, 2>>]
Old == Common @@ [base_exp |-> <<9, 1>>, item_1 |-> <<12, 2>>, item_2 |-> <<14, 2>>, gender_ratio |-> <<16, 1>>,
                  hatch_cycles |-> <<17, 1>>, base_friendship |-> <<18, 1>>, exp_growth |-> <<19, 1>>, egg_group_1 |-> <<20, 1>>,
                  egg_group_2 |-> <<21, 1>>, ability_1 |-> <<22, 1>>, ability_2 |-> <<23, 1>>, escape_rate |-> <<24, 1>>, misc |-> <<25, 3>>]
Gen3Fields == Old
Gen4Fields == Old @@ [tm_hm |-> <<28, 13>>, form_count |-> <<41, 1>>, form_stats_index |-> <<42, 2>>]
\* from generation 5 on: three items, evolution stage, base experience as a half
Newer == Common @@ [evo_stage |-> <<9, 1>>, item_1 |-> <<12, 2>>, item_2 |-> <<14, 2>>, item_3 |-> <<16, 2>>, gender_ratio |-> <<18, 1>>,
                    hatch_cycles |-> <<19, 1>>, base_friendship |-> <<20, 1>>, exp_growth |-> <<21, 1>>, egg_group_1 |-> <<22, 1>>,
                    egg_group_2 |-> <<23, 1>>, misc |-> <<33, 1>>, base_exp |-> <<34, 2>>, height |-> <<36, 2>>, weight |-> <<38, 2>>,
                    form_count |-> <<32, 1>>]
ByteAbilities == Newer @@ [ability_1 |-> <<24, 1>>, ability_2 |-> <<25, 1>>, ability_h |-> <<26, 1>>, escape_rate |-> <<27, 1>>,
                           form_stats_index |-> <<28, 2>>, form_sprite |-> <<30, 2>>]
HalfAbilities == Newer @@ [ability_1 |-> <<24, 2>>, ability_2 |-> <<26, 2>>, ability_h |-> <<28, 2>>, form_stats_index |-> <<30, 2>>]
BwFields == ByteAbilities @@ [tm_hm |-> <<40, 16>>, type_tutors |-> <<56, 4>>]
B2w2Fields == BwFields @@ [specific_tutors |-> <<60, 16>>]
XyFields == ByteAbilities @@ [tm_hm |-> <<40, 16>>, type_tutors |-> <<56, 8>>]
AoFields == XyFields @@ [specific_tutors |-> <<64, 16>>]
Gen7Fields == ByteAbilities @@ [tm |-> <<40, 16>>, type_tutors |-> <<56, 4>>, specific_tutors |-> <<60, 16>>, special_z_item |-> <<76, 2>>,
                                special_z_base_move |-> <<78, 2>>, special_z_move |-> <<80, 2>>, local_variant |-> <<82, 1>>]
SwshFields == HalfAbilities @@ [tm |-> <<40, 16>>, type_tutors |-> <<56, 4>>, tr |-> <<60, 16>>, species |-> <<76, 2>>,
                                hatch_species |-> <<86, 2>>, local_form_index |-> <<88, 2>>, regional_flags |-> <<90, 2>>,
                                pokedex_index |-> <<92, 2>>, regional_form_index |-> <<94, 2>>, armor_tutor |-> <<168, 4>>,
                                armor_dex_index |-> <<172, 2>>, crown_dex_index |-> <<174, 2>>]
BdspFields == HalfAbilities @@ [tm |-> <<40, 16>>, type_tutors |-> <<56, 4>>, species |-> <<60, 2>>, hatch_species |-> <<62, 2>>,
                                hatch_form_index |-> <<64, 2>>, pokedex_index |-> <<66, 2>>]
LaFields == HalfAbilities @@ [hatch_species |-> <<86, 2>>, hatch_form_index |-> <<88, 2>>, regional_flags |-> <<90, 2>>, species |-> <<92, 2>>,
                              form |-> <<94, 2>>, dex_index_hisui |-> <<96, 2>>, dex_index_hisui_local_1 |-> <<98, 2>>,
                              dex_index_hisui_local_2 |-> <<100, 2>>, dex_index_hisui_local_3 |-> <<102, 2>>,
                              dex_index_hisui_local_4 |-> <<104, 2>>, dex_index_hisui_local_5 |-> <<106, 2>>, move_shop |-> <<168, 8>>]

\* file, record length, fields
Layouts ==
  [rs |-> <<28, Gen3Fields>>, e |-> <<28, Gen3Fields>>, fr |-> <<28, Gen3Fields>>, lg |-> <<28, Gen3Fields>>,
   dp |-> <<44, Gen4Fields>>, pt |-> <<44, Gen4Fields>>, bw |-> <<60, BwFields>>, b2w2 |-> <<76, B2w2Fields>>,
   xy |-> <<64, XyFields>>, ao |-> <<80, AoFields>>, sm |-> <<84, Gen7Fields>>, uu |-> <<84, Gen7Fields>>,
   swsh |-> <<176, SwshFields>>, bdsp |-> <<68, BdspFields>>, la |-> <<176, LaFields>>]
Files ==
  [RUBY |-> "rs", SAPPHIRE |-> "rs", EMERALD |-> "e", FIRE_RED |-> "fr", LEAF_GREEN |-> "lg", DIAMOND |-> "dp", PEARL |-> "dp",
   PLATINUM |-> "pt", BLACK |-> "bw", WHITE |-> "bw", BLACK2 |-> "b2w2", WHITE2 |-> "b2w2", X |-> "xy", Y |-> "xy",
   OMEGA_RUBY |-> "ao", ALPHA_SAPPHIRE |-> "ao", SUN |-> "sm", MOON |-> "sm", ULTRA_SUN |-> "uu", ULTRA_MOON |-> "uu",
   SWORD |-> "swsh", SHIELD |-> "swsh", BRILLIANT_DIAMOND |-> "bdsp", SHINING_PEARL |-> "bdsp", LEGENDS_ARCEUS |-> "la"]
\* games without a species table: asking is refused
WithoutTable == {"NONE", "GALES", "COLOSSEUM", "HEART_GOLD", "SOUL_SILVER"}

\* one field of one record, one word per value; byte arrays byte by byte
FieldValue(b, at, size, where) ==
  LET p == (size * at) + where[1]
  IN CASE where[2] = 1 -> <<ByteAt(b, p)>>
       [] where[2] = 2 -> <<Half(b, p)>>
       [] OTHER -> SubSeq(b, p + 1, p + where[2])

\* one field of the species table of a game, or the refusal to give one
NotImplemented == <<-1>>
NewPersonal(c) == [cls |-> "PERSONAL", game |-> c.game, field |-> c.field]
PersonalDo(ob, op, a) ==
  IF ob.game \in WithoutTable THEN <<ob, NotImplemented>>
  ELSE LET f == Files[ob.game]
           lay == Layouts[f]
           b == File(f)
       IN CASE op = "count" -> <<ob, <<Len(b) \div lay[1]>>>>
            \* records a[1], a[1] + a[2], ... of one field
            [] op = "column" ->
                 <<ob, FoldLeft(LAMBDA acc, i : acc \o FieldValue(b, a[1][1] + (a[2][1] * (i - 1)), lay[1], lay[2][ob.field]),
                                <<>>, Range0(a[3][1]))>>
            [] OTHER -> <<ob, Unknown>>

\* identifiers of all games: single bits, pairwise distinct
Power(x) == x # 0 /\ And32(x, Sub32(x, 1)) = 0
GamesDo(ob, op, a, r) ==
  CASE op = "values" ->
         <<ob, IF Len(r) = Len(ob.names) /\ (\A i \in 1..Len(r) : Power(r[i])) /\ (\A i, j \in 1..Len(r) : i # j => r[i] # r[j])
               THEN r ELSE Unknown>>
    [] OTHER -> <<ob, Unknown>>
=============================================================================
