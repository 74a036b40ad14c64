------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* The input language, as a derivation machine.                            *)
(*                                                                         *)
(* A state is a partial leftmost derivation of an Apex program: a stack of *)
(* symbols still to be expanded and the tokens already emitted.  Every     *)
(* nonterminal lists its alternatives; the first is its DEFAULT.  Taking   *)
(* any other alternative is a deviation, and a behaviour may deviate at    *)
(* most MaxDev times: exploring the machine exhaustively yields every      *)
(* program that differs from the plainest one in at most MaxDev            *)
(* constructs, i.e. every construct, and every pair (triple, ...) of       *)
(* constructs and options in combination.                                  *)
(*                                                                         *)
(* After the derivation the machine may change the trivia (white space and *)
(* comments) of up to MaxTrivia gaps between tokens.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Roots,        \* set of start symbols
          MaxDev,       \* bound on deviations from the default alternative
          MaxTrivia,    \* bound on gaps whose trivia is not a single space
          TriviaKinds,  \* names of trivia that may be put into a gap
          MaxLen        \* bound on the number of tokens

Rules == [
  (* ---- start symbols: one per place a construct can be looked at from --- *)
  R_unit   |-> << <<"Class">>, <<"Interface">>, <<"Enum">>, <<"Trigger">>, <<"Stmts">>, <<"Method">>, <<"Class","Class">>, << >> >>,
  R_member |-> << <<"class","id","{","Member","}">>,
                  <<"class","id","{","Member","Member","}">>,
                  <<"class","id","{","class","id","{","Member","}","}">>,
                  <<"interface","id","{","IMember","}">>,
                  <<"interface","id","{","IMember","IMember","}">> >>,
  R_stmt   |-> << <<"class","id","{","void","id","(",")","{","Stmt","}","}">>,
                  <<"class","id","{","void","id","(",")","{","Stmt","Stmt","}","}">>,
                  <<"class","id","{","void","id","(",")","{","if","(","E",")","{","Stmt","}","}","}">>,
                  <<"trigger","id","on","id","(","before insert",")","{","Stmt","}">>,
                  <<"Stmt">> >>,
  R_expr   |-> << <<"class","id","{","void","id","(",")","{","id","=","E",";","}","}">> >>,
  R_ctx    |-> << <<"class","id","{","void","id","(",")","{","EStmt","}","}">>,
                  <<"class","id","{","ECtxMember","}">> >>,
  R_type   |-> << <<"class","id","{","T","id",";","}">>,
                  <<"class","id","{","TCtx","}">> >>,
  R_soql   |-> << <<"class","id","{","void","id","(",")","{","id","=","[","Soql","]",";","}","}">> >>,
  R_sosl   |-> << <<"class","id","{","void","id","(",")","{","id","=","[","Sosl","]",";","}","}">> >>,
  R_anno   |-> << <<"Anno","class","id","{","}">>, <<"class","id","{","AnnoCtx","}">> >>,

  R_big    |-> << <<"class","id","{","Member","Member","Member","Member","}">>,
                  <<"class","id","{","void","id","(",")","{","Stmt","Stmt","Stmt","Stmt","Stmt","}","}">>,
                  <<"trigger","id","on","id","(","before insert",")","{","Stmt","Stmt","Stmt","Stmt","}">>,
                  <<"Class","Class">>,
                  <<"class","id","extends","T","implements","T",",","T","{","Field","Field","Ctor","Prop","Method","Method","Class","Enum","}">>,
                  <<"class","id","{","void","id","(","Params",")","{","id","=","E",";","if","(","E",")","Block","else","Block","for","(","T","id",":","E",")","Block","return","E",";","}","}">>,
                  <<"class","id","{","T0","id","(",")","{","T","id","=","[","Soql","]",";","for","(","T","id",":","[","Soql","]",")","{","Stmt","}","Call",";","}","}">>,
                  <<"interface","id","{","IMember","IMember","IMember","}">> >>,
  R_list   |-> << <<"class","id","{","void","id","(",")","{","id","(","E",",","E",",","E",",","E",",","E",",","E",")",";","}","}">>,
                  <<"class","id","{","void","id","(","Param",",","Param",",","Param",",","Param",",","Param",",","Param",")","Block","}">>,
                  <<"enum","id","{","id",",","id",",","id",",","id",",","id",",","id",",","id","}">>,
                  <<"class","id","{","void","id","(",")","{","id","=","new","List","<","T",">","{","E",",","E",",","E",",","E",",","E","}",";","}","}">>,
                  <<"class","id","{","void","id","(",")","{","id","=","new","Map","<","T",",","T",">","{","E","=>","E",",","E","=>","E",",","E","=>","E",",","E","=>","E","}",";","}","}">>,
                  <<"class","id","implements","T",",","T",",","T",",","T","{","}">>,
                  <<"class","id","<","id",",","id",",","id",",","id",">","{","}">>,
                  <<"class","id","{","void","id","(",")","{","try","Block","Catch","Catch","Catch","finally","Block","}","}">>,
                  <<"class","id","{","void","id","(",")","{","id",".","id","(","Args",")",".","id","(","Args",")",".","id","(","Args",")",".","id","(","Args",")",".","id","(","Args",")",";","}","}">>,
                  <<"class","id","{","void","id","(",")","{","id","=","E","+","E","+","E","+","E","+","E","+","E",";","}","}">>,
                  <<"class","id","{","void","id","(",")","{","id","=","E","&&","E","&&","E","||","E","&&","E","||","E",";","}","}">>,
                  <<"class","id","{","void","id","(",")","{","id","=","[","SELECT","sf",",","sf",",","sf",",","sf",",","sf",",","sf","FROM","sf","WHERE","Cmp","AND","Cmp","AND","Cmp","AND","Cmp","ORDER BY","sf",",","sf",",","sf","LIMIT","1","]",";","}","}">>,
                  <<"class","id","{","void","id","(",")","{","id","=","[","SELECT","sf",",","(","SubQ",")",",","(","SubQ",")","FROM","sf","WHERE","Cmp","AND","(","Cmp","OR","Cmp","OR","Cmp",")","GROUP BY","sf",",","sf",",","sf","]",";","}","}">>,
                  <<"class","id","{","void","id","(",")","{","if","(","E",")","Block","else","if","(","E",")","Block","else","if","(","E",")","Block","else","if","(","E",")","Block","else","Block","}","}">>,
                  <<"class","id","{","void","id","(",")","{","if","(","E",")","{","if","(","E",")","{","for","(","T","id",":","E",")","{","while","(","E",")","{","try","{","Stmt","}","Catch","}","}","}","}","}","}">>,
                  <<"class","id","{","void","id","(",")","{","switch","on","E","{","when","WExpr",",","WExpr",",","WExpr","Block","when","WExpr","Block","when","WExpr","Block","when","else","Block","}","}","}">>,
                  <<"class","id","{","void","id","(",")","{","T","Decl",",","Decl",",","Decl",",","Decl",";","}","}">>,
                  <<"class","id","{","void","id","(",")","{","id","=","E","?","E",":","E","?","E",":","E","?","E",":","E",";","}","}">>,
                  <<"class","id","{","T","id","(",")","{","return","id","(","id","(","id","(","id","(","E",")",")",")",")",";","}","}">>,
                  <<"class","id","{","void","id","(",")","{","id","=","(","E","&&","(","E","||","(","E","&&","(","E","||","E",")",")",")",")",";","}","}">>,
                  <<"class","id","{","class","id","{","class","id","{","class","id","{","void","id","(",")","{","Stmt","}","}","}","}","}">>,
                  <<"trigger","id","on","id","(","before insert",",","before update",",","before delete",",","after insert",",","after update",",","after delete",",","after undelete",")","{","Stmt","}">>,
                  <<"class","id","{","void","id","(",")","{","id","=","id","+","id","+","id","+","(","E",")","+","id","(","E",",","E",")","+","id",";","}","}">>,
                  <<"class","id","{","void","id","(",")","{","System",".","debug","(","'s'","+","E","+","'s'","+","E","+","'s'",")",";","}","}">>,
                  <<"class","id","{","void","id","(",")","{","id","=","E","&&","(","id","==","null","||","!","id",".","id","(",")",")","&&","id",".","id","(","E",")",";","}","}">>,
                  <<"class","id","{","void","id","(",")","{","id","=","[","FIND","'s'","IN","ALL","FIELDS","RETURNING","sf","(","sf",",","sf",",","sf","WHERE","BoolE",")",",","sf","(","sf",",","sf",")",",","sf","]",";","}","}">>,
                  <<"class","id","{","void","id","(",")","{","for","(","T","id","=","E",",","id","=","E",";","E",";","Upd",",","Upd",",","Upd",")","Block","}","}">>,
                  <<"Anno","Anno","Anno","public","class","id","{","Anno","Anno","public","static","T","id","(","Anno","T","id",")","Block","}">>,
                  <<"class","id","{","void","id","(",")","{","id","=","(","T",")","id",".","id","(","E",")",".","id",";","id","=","(","T",")","(","E",")",";","}","}">>,
                  <<"class","id","{","void","id","(",")","{","T","id","=","new","T","(","id","=","E",",","id","=","E",",","id","=","E",",","id","=","E",",","id","=","E",")",";","}","}">> >>,

  (* control flow within control flow, with and without braces               *)
  R_nest   |-> << <<"class","id","{","void","id","(",")","{","X","}","}">>, <<"class","id","{","static","{","X","id","(",")",";","}","}">>,
                  <<"trigger","id","on","id","(","before insert",")","{","X","}">> >>,
  X        |-> << <<"id","(",")",";">>, <<"{","X","}">>, <<"if","(","id",")","X">>, <<"if","(","id",")","X","else","X">>, <<"for","(","T","id",":","id",")","X">>, <<"while","(","id",")","X">>,
                  <<"for","(","T","id","=","1",";","id",";","id","++",")","X">>, <<"do","{","X","}","while","(","id",")",";">>, <<"try","{","X","}","catch","(","T","id",")","{","X","}">>,
                  <<"try","{","X","}","finally","{","X","}">>, <<"switch","on","id","{","when","1","{","X","}","when","else","{","X","}","}">>, <<"System.runAs","(","id",")","{","X","}">>, <<"{","}">>, <<"return",";">>, <<";">> >>,

  (* ---- declarations ---------------------------------------------------- *)
  Class    |-> << <<"ClassMods","class","id","TParamsOpt","SuperOpt","ImplOpt","{","Members","}">> >>,
  ClassMods|-> << << >>, <<"public">>, <<"global">>, <<"private","virtual">>, <<"public","abstract">>, <<"public","with sharing">>,
                  <<"public","without sharing">>, <<"inherited sharing">>, <<"Anno">>, <<"Anno","public">>, <<"PUBLIC">>, <<"With Sharing">> >>,
  TParamsOpt |-> << << >>, <<"<","id",">">>, <<"<","id",",","id",">">>, <<"<","TParam",">">>, <<"<","TParam",",","TParam",">">> >>,
  SuperOpt |-> << << >>, <<"extends","T">> >>,
  ImplOpt  |-> << << >>, <<"implements","T">>, <<"implements","T",",","T">> >>,
  Members  |-> << << >>, <<"Member">>, <<"Member","Member">>, <<"Member","Member","Member">> >>,
  Member   |-> << <<"Field">>, <<"Method">>, <<"Ctor">>, <<"Prop">>, <<"Class">>, <<"Interface">>, <<"Enum">>, <<"static","Block">>, <<"Block">>,
                  <<";">>,
                  <<"Member2">> >>,
  Member2  |-> << <<"MMods","T0","id","(","Params",")","[","]","Block">>, <<"FMods","T","id","=","New",";">> >>,
  Interface|-> << <<"IntfMods","interface","id","TParamsOpt","ExtIntfOpt","{","IMembers","}">> >>,
  IntfMods |-> << << >>, <<"public">>, <<"Anno">>, <<"private","virtual">> >>,
  ExtIntfOpt |-> << << >>, <<"extends","T">>, <<"extends","T",",","T">> >>,
  IMembers |-> << << >>, <<"IMember">>, <<"IMember","IMember">> >>,
  IMember  |-> << <<"AbsMethod">>, <<"static","final","T","id","=","E",";">>, <<"Enum">>, <<"Class">>, <<"Interface">>, <<"T","id",";">> >>,
  AbsMethod|-> << <<"MMods","T","id","(","Params",")",";">> >>,
  Enum     |-> << <<"EnumMods","enum","id","ImplEnumOpt","{","EnumConsts","}">> >>,
  EnumMods |-> << << >>, <<"public">>, <<"Anno","global">> >>,
  ImplEnumOpt |-> << << >>, <<"implements","T">>, <<"implements","T",",","T">> >>,
  EnumConsts |-> << <<"id">>, << >>, <<"id",",","id">>, <<"id",",","id",",","id">>, <<"Anno","id">>, <<"Anno","id",",","Anno","id">> >>,
  Trigger  |-> << <<"trigger","id","on","id","(","TrigEvents",")","Block">> >>,
  TrigEvents |-> << <<"before insert">>, <<"before update">>, <<"before delete">>, <<"after insert">>, <<"after update">>, <<"after delete">>,
                  <<"after undelete">>, <<"before insert",",","after update">>, <<"BEFORE INSERT",",","After Delete",",","after undelete">> >>,
  Field    |-> << <<"FMods","T","Decls",";">> >>,
  FMods    |-> << << >>, <<"private">>, <<"public","static","final">>, <<"transient">>, <<"Anno">>, <<"Anno","public">>, <<"protected">>, <<"global","static">>, <<"Public","STATIC">> >>,
  Decls    |-> << <<"Decl">>, <<"Decl",",","Decl">>, <<"Decl",",","Decl",",","Decl">> >>,
  Decl     |-> << <<"id">>, <<"id","=","E">>, <<"id","=","ArrInit">>,
                  <<"id","[","]">>,
                  <<"id","[","]","=","E">> >>,
  Prop     |-> << <<"FMods","T","id","{","Accs","}">>,
                  <<"FMods","T","id","{","Anno","get",";","set",";","}">> >>,
  Accs     |-> << <<"get",";">>, <<"get",";","set",";">>, <<"AMods","get","Block","AMods","set","Block">>, <<"get","Block">>, <<"get",";","AMods","set",";">>, <<"GET",";","Set",";">> >>,
  AMods    |-> << << >>, <<"private">>, <<"protected">>, <<"Anno">> >>,
  Method   |-> << <<"MMods","T0","id","(","Params",")","Block">>, <<"abstract","T0","id","(","Params",")",";">>, <<"MMods","<","TParam",">","T0","id","(","Params",")","Block">>,
                  <<"MMods","<","TParam",",","TParam",">","T","id","(",")","Block">>, <<"public","<","id",">","Anno","T","id","(",")",";">> >>,
  TParam   |-> << <<"id">>, <<"id","extends","T">>, <<"id","extends","T","&","T">>, <<"Anno","id">>, <<"id","extends","T","&","T","&","T">> >>,
  MMods    |-> << << >>, <<"public">>, <<"private","static">>, <<"public","override">>, <<"global","virtual">>, <<"static","testMethod">>, <<"webservice","static">>,
                  <<"Anno">>, <<"Anno","Anno">>, <<"Anno","public","static">>, <<"@","id","(","id","=","AV",")","static">>, <<"Static","TestMethod">> >>,
  Params   |-> << << >>, <<"Param">>, <<"Param",",","Param">>, <<"Param",",","Param",",","Param">> >>,
  Param    |-> << <<"T","id">>, <<"final","T","id">>, <<"Anno","T","id">>,
                  <<"T","id","[","]">> >>,
  Ctor     |-> << <<"CMods","id","(","Params",")","{","CtorInv","Stmts","}">> >>,
  CMods    |-> << <<"public">>, <<"private">>, <<"Anno","public">>, << >>, <<"public","<","TParam",">">>, <<"<","TParam",",","TParam",">">> >>,
  CtorInv  |-> << << >>, <<"this","(","Args",")",";">>, <<"super","(","Args",")",";">>, <<"id",".","super","(","Args",")",";">>, <<"<","T",">","this","(","Args",")",";">>, <<"id",".","<","T",">","super","(","Args",")",";">>, <<"Call",".","super","(","Args",")",";">> >>,
  Anno     |-> << <<"@","id">>, <<"@","id","(",")">>, <<"@","id","(","id","=","AV",")">>, <<"@","id","(","id","=","'s'","id","=","true",")">>,
                  <<"@","id","(","AV",")">>, <<"@","IsTest">>, <<"@","isTest","(","SeeAllData","=","true",")">>, <<"@","future","(","callout","=","true",")">>,
                  <<"@","id","(","id","=","'s'","id","=","'t'","id","=","false",")">>, <<"@","TestSetup">>, <<"@","AuraEnabled","(","cacheable","=","true",")">> >>,
  AV       |-> << <<"'s'">>, <<"true">>, <<"1">>, <<"id">>, <<"false">>, <<"'Two  Words, and = /* s */ // x'">>, <<"null">>,
                  <<"{","AV",",","AV","}">>, <<"{","}">>, <<"{","AV","}">>, <<"-","1">>, <<"1.5">>, <<"id",".","id">>, <<"id",".","class">>, <<"Anno">>, <<"1","+","1">>, <<"id","?","id",":","id">>, <<"id","(",")">>, <<"(","id",")">>, <<"new","id","(",")">>, <<"id","[","1","]">>, <<"!","id">>, <<"'s'","+","'t'">> >>,
  AnnoCtx  |-> << <<"Anno","T","id",";">>, <<"Anno","void","id","(",")","{","}">>, <<"Anno","Anno","void","id","(",")","{","}">>,
                  <<"Anno","public","static","T","id","(","Anno","T","id",")","{","}">>, <<"Anno","id","(",")","{","}">>, <<"Anno","T","id","{","get",";","set",";","}">>,
                  <<"Anno","enum","id","{","id","}">>, <<"Anno","interface","id","{","}">>, <<"void","id","(",")","{","Anno","T","id",";","}">> >>,

  (* ---- statements ------------------------------------------------------ *)
  Block    |-> << <<"{","}">>, <<"{","Stmt","}">>, <<"{","Stmt","Stmt","}">>,
                  <<"{","Stmt","Stmt","Stmt","}">> >>,
  Stmts    |-> << << >>, <<"Stmt">>, <<"Stmt","Stmt">> >>,
  Stmt     |-> << <<"id","=","E",";">>, <<"Local">>, <<"If">>, <<"For">>, <<"Each">>, <<"While">>, <<"Do">>, <<"Try">>, <<"Switch">>,
                  <<"return",";">>, <<"return","E",";">>, <<"throw","E",";">>, <<"break",";">>, <<"continue",";">>, <<"Dml">>, <<"RunAs">>, <<"Block">>,
                  <<"Call",";">>, <<"id","++",";">>, <<"--","id",";">>, <<"AsgnLhs","AsgnOp","E",";">>, <<"Class">>, <<"Method">>, <<"Enum">>, <<"Interface">>,
                  <<"New",";">>, <<"break","id",";">>, <<"continue","id",";">>,
                  <<"T","id","[","]",";">>,
                  <<"Blank">>,
                  <<"UpdStmt",";">>,
                  <<"System.runAs","(","E",")","Block">> >>,
  Blank    |-> << <<";">>, <<"{",";","}">> >>,
  AsgnLhs  |-> << <<"id">>, <<"id",".","id">>, <<"this",".","id">>, <<"id","[","E","]">>, <<"id",".","id",".","id">>, <<"Call",".","id">>, <<"id","?.","id">> >>,
  AsgnOp   |-> << <<"=">>, <<"+=">>, <<"-=">>, <<"*=">>, <<"/=">>, <<"&=">>, <<"|=">>, <<"^=">>, <<"%=">>, <<"<<=">>, <<">>=">>, <<">>>=">> >>,
  Local    |-> << <<"LMods","T","Decls",";">> >>,
  LMods    |-> << << >>, <<"final">>, <<"Anno">> >>,
  If       |-> << <<"if","(","E",")","Block">>, <<"if","(","E",")","Block","else","Block">>, <<"if","(","E",")","SStmt">>, <<"if","(","E",")","SStmt","else","SStmt">>,
                  <<"if","(","E",")","Block","else","if","(","E",")","Block">>, <<"if","(","E",")","Block","else","if","(","E",")","Block","else","Block">>,
                  <<"if","(","E",")","SStmt","else","if","(","E",")","SStmt","else","SStmt">>, <<"if","(","E",")","SStmt","else","Block">>, <<"if","(","E",")","Block","else","SStmt">>,
                  <<"IF","(","E",")","Block","ELSE","Block">> >>,
  SStmt    |-> << <<"id","=","E",";">>, <<"return",";">>, <<"If">>, <<"For">>, <<"Each">>, <<"While">>, <<"Do">>, <<"Try">>, <<"throw","E",";">>, <<"Dml">>, <<"Call",";">>, <<"Switch">>, <<"break",";">>, <<"continue",";">>, <<"Local">>, <<"UpdStmt",";">>, <<"RunAs">> >>,
  UpdStmt  |-> << <<"id","++">>, <<"id",".","id","++">>, <<"this",".","id","--">>, <<"id","[","E","]","++">>, <<"++","id",".","id">>, <<"--","id","[","E","]">>, <<"(","id",")","++">>, <<"Call","++">> >>,
  (* any expression, as a statement *)
  EStmt1   |-> << <<"Call",";">>, <<"E",";">>, <<"UpdStmt",";">> >>,
  For      |-> << <<"for","(","T","id","=","E",";","E",";","Upd",")","Block">>, <<"for","(","id","=","E",";","E",";","Upd",")","Block">>, <<"for","(",";",";",")","Block">>,
                  <<"for","(",";","E",";",")","Block">>, <<"for","(","T","Decl",",","Decl",";","E",";","Upd",")","Block">>, <<"for","(","T","id","=","E",";",";",")","Block">>,
                  <<"for","(",";",";","Upd",")","Block">>, <<"for","(","id","=","E",",","id","=","E",";","E",";","Upd",",","Upd",")","Block">>, <<"for","(","T","id","=","E",";","E",";","Upd",")","SStmt">>,
                  <<"for","(","T","id","=","E",";","E",";","Upd",")",";">> >>,
  Upd      |-> << <<"id","++">>, <<"++","id">>, <<"id","+=","E">>, <<"id","--">>, <<"Call">> >>,
  Each     |-> << <<"for","(","T","id",":","E",")","Block">>, <<"for","(","T","id",":","E",")","SStmt">>, <<"for","(","T","id",":","[","Soql","]",")","Block">>, <<"for","(","final","T","id",":","E",")","Block">>,
                  <<"for","(","T","id",":","E",")",";">> >>,
  While    |-> << <<"while","(","E",")","Block">>, <<"while","(","E",")","SStmt">>, <<"while","(","E",")",";">> >>,
  Do       |-> << <<"do","Block","while","(","E",")",";">> >>,
  Try      |-> << <<"try","Block","Catch">>, <<"try","Block","Catch","Catch">>, <<"try","Block","finally","Block">>, <<"try","Block","Catch","finally","Block">> >>,
  Catch    |-> << <<"catch","(","T","id",")","Block">>,
                  <<"catch","(","id",".","id","id",")","Block">> >>,
  Switch   |-> << <<"switch","on","E","{","When","}">>, <<"switch","on","E","{","When","When","}">>, <<"switch","on","E","{","When","when","else","Block","}">> >>,
  When     |-> << <<"when","WExpr","Block">>, <<"when","WExpr",",","WExpr","Block">>, <<"when","T","id","Block">>, <<"when","else","Block">> >>,
  WExpr    |-> << <<"1">>, <<"id">>, <<"'s'">>, <<"null">>, <<"id",".","id">>, <<"-","1">>, <<"1.5">>, <<"true">>, <<"10L">>, <<"(","id",")">>, <<"id","(",")">>, <<"id",".","id",".","id">>, <<"id","[","1","]">>, <<"1","+","1">>, <<"id",".","class">> >>,
  Dml      |-> << <<"insert","E",";">>, <<"update","E",";">>, <<"delete","E",";">>, <<"undelete","E",";">>, <<"upsert","E",";">>, <<"upsert","id","id",";">>, <<"upsert","id","T",";">>, <<"merge","id","id",";">>,
                  <<"insert","as","user","id",";">>, <<"update","as","system","id",";">>, <<"upsert","as","user","id","id",";">>, <<"merge","id","Call",";">>, <<"INSERT","id",";">>, <<"merge","as","user","id","id",";">>,
                  <<"upsert","id","id",".","id",";">>, <<"upsert","New","id",";">>, <<"merge","id","New",";">>, <<"merge","id","FieldAcc",";">>, <<"merge","Call","[","Soql","]",";">>, <<"undelete","as","system","E",";">>, <<"delete","as","user","E",";">> >>,
  RunAs    |-> << <<"System.runAs","(","E",")","Block">> >>,

  (* ---- places an expression can stand ----------------------------------- *)
  EStmt    |-> << <<"id","=","E",";">>, <<"T","id","=","E",";">>, <<"return","E",";">>, <<"throw","E",";">>, <<"if","(","E",")","{","}">>, <<"while","(","E",")","{","}">>, <<"do","{","}","while","(","E",")",";">>,
                  <<"for","(","T","id",":","E",")","{","}">>, <<"for","(","T","id","=","E",";","E",";","id","++",")","{","}">>, <<"id","(","E",")",";">>, <<"id","(","E",",","E",")",";">>, <<"id","[","E","]","=","E",";">>,
                  <<"insert","E",";">>, <<"switch","on","E","{","when","1","{","}","}">>, <<"System.runAs","(","E",")","{","}">>, <<"T","id","=","E",",","id","=","E",";">>, <<"id",".","id","(","E",")",";">>,
                  <<"id","+=","E",";">>, <<"id",".","id","=","E",";">>, <<"upsert","E",";">>, <<"id",".","id","(","E",")",".","id","(","E",")",";">>, <<"new","T","(","E",")",";">>, <<"if","(","E",")","id","=","E",";">> >>,
  ECtxMember |-> << <<"T","id","=","E",";">>, <<"public","static","final","T","id","=","E",",","id","=","E",";">>, <<"T","id","{","get","{","return","E",";","}","}">>, <<"id","(",")","{","super","(","E",")",";","}">>,
                  <<"@","id","(","id","=","AV",")","void","id","(",")","{","}">>, <<"static","{","id","=","E",";","}">> >>,

  (* ---- expressions ------------------------------------------------------ *)
  E        |-> << <<"id">>, <<"Lit">>, <<"Bin">>, <<"Cond">>, <<"Un">>, <<"Upd1">>, <<"Cast">>, <<"P","instanceof","T">>, <<"(","E",")">>, <<"New">>, <<"Call">>, <<"FieldAcc">>, <<"PO","[","E","]">>,
                  <<"[","Soql","]">>, <<"[","Sosl","]">>, <<"T",".","class">>, <<"this">>, <<"id","=","E">>, <<"Package",".","Version",".","VerSuffix">>, <<"[","Soql","]",".","id">>, <<"[","Soql","]","[","0","]",".","id">>, <<"java:","id",".","id",".","id","(",")">> >>,
  VerSuffix|-> << <<"Request">>, <<"1.0">> >>,
  P        |-> << <<"id">>, <<"Lit">>, <<"(","E",")">>, <<"Call">>, <<"FieldAcc">>, <<"this">>, <<"PO","[","E","]">> >>,
  PO       |-> << <<"id">>, <<"'s'">>, <<"(","E",")">>, <<"Call">>, <<"FieldAcc">>, <<"this">>, <<"PO","[","E","]">> >>,
  Lit      |-> << <<"1">>, <<"'s'">>, <<"true">>, <<"false">>, <<"null">>, <<"1.5">>, <<"10L">>, <<"2.5D">>, <<"''">>, <<"'a\\'b\\n'">>, <<"'Two  Spaces'">>, <<"NULL">>, <<"True">>, <<"0.5F">>, <<"1_000">>, <<"'MiXed Case // no comment'">>, <<"1l">>, <<"1e5">>, <<"'\\u00e9 /* x */'">> >>,
  Bin      |-> << <<"E","Op","E">>, <<"E","Op","E","Op","E">>, <<"E","&&","E","||","E">>, <<"E","+","E","*","E">>, <<"E","&&","(","E","||","E",")">>, <<"E","==","E","&&","E","!=","E">>, <<"E","+","E","+","E","+","E">>, <<"(","E","+","E",")","*","E">>,
                  <<"E","&&","E","&&","E","||","E","&&","E">>, <<"E","-","(","E","-","E",")">>, <<"E","??","E","??","E">> >>,
  Op       |-> << <<"+">>, <<"-">>, <<"*">>, <<"/">>, <<"%">>, <<"&&">>, <<"||">>, <<"==">>, <<"!=">>, <<"===">>, <<"!==">>, <<"<">>, <<">">>, <<"<=">>, <<">=">>, <<"<>">>, <<"&">>, <<"|">>, <<"^">>, <<"<<">>, <<">>">>, <<">>>">>, <<"??">> >>,
  Cond     |-> << <<"E","?","E",":","E">>, <<"E","?","E",":","E","?","E",":","E">>, <<"E","?","E","?","E",":","E",":","E">>, <<"(","E",")","?","E",":","E">>,
                  <<"E","?","E",":","(","E","?","E",":","E",")">> >>,
  Un       |-> << <<"!","P">>, <<"-","P">>, <<"+","P">>, <<"~","P">>, <<"!","(","E",")">>, <<"-","(","E",")">>, <<"-","-","P">>, <<"+","+","P">>, <<"!","!","P">>, <<"!","Call">>,
                  <<"-","--","id">>,
                  <<"+","++","id">>,
                  <<"!","id",".","id","(",")">>,
                  <<"-","id",".","id">>, <<"-","New">>, <<"!","id","instanceof","T">>, <<"-","(","T",")","P">>, <<"-","id","[","E","]">>, <<"~","id","&","id">>, <<"!","id","==","id">>, <<"-","id","*","-","id">> >>,
  Upd1     |-> << <<"id","++">>, <<"--","id">>, <<"++","id">>, <<"id","--">>, <<"-","--","id">>, <<"id","++","+","id">>,
                  <<"UpdStmt">>, <<"id","-","UpdStmt">>, <<"-","id",".","id","++">> >>,
  Cast     |-> << <<"(","T",")","P">>, <<"(","T",")","(","T",")","P">>, <<"(","T",")","New">>, <<"(","T",")","[","Soql","]">>,
                  <<"(","T",")","Un">>, <<"(","T",")","P","+","P">>, <<"(","T",")","UpdStmt">>, <<"(","T",")","P","instanceof","T">>, <<"(","T",")","P","?","P",":","P">>, <<"(","T",")","T",".","class">>, <<"(","(","T",")","P",")",".","id","(","Args",")">> >>,
  Inst     |-> << <<"P","instanceof","T">>, <<"Un","instanceof","T">>, <<"UpdStmt","instanceof","T">>, <<"New","instanceof","T">>, <<"id","+","id","instanceof","T">>, <<"id","=","id","instanceof","T">>, <<"(","Cond",")","instanceof","T">>,
                  <<"id","&&","id","instanceof","T">>, <<"id","==","id","instanceof","T">>, <<"[","Soql","]","instanceof","T">>, <<"(","E",")","instanceof","T","?","E",":","E">>, <<"Call","instanceof","T","||","Call","instanceof","T">> >>,
  (* where a literal can stand *)
  LitStmt  |-> << <<"return","Lit",";">>, <<"throw","Lit",";">>, <<"id","=","id","[","Lit","]",";">>, <<"id","=","new","id","[","Lit","]",";">>, <<"id","=","new","id","[","]","{","Lit",",","Lit","}",";">>,
                  <<"id","=","new","Map","<","id",",","id",">","{","Lit","=>","Lit",",","Lit","=>","Lit","}",";">>, <<"for","(","T","id",":","Lit",")","{","}">>, <<"switch","on","Lit","{","when","1","{","}","}">>, <<"insert","Lit",";">>,
                  <<"System.runAs","(","Lit",")","{","}">>, <<"id","(","Lit",",","Lit",")",";">>, <<"id","=","(","T",")","Lit",";">>, <<"id","=","Lit","instanceof","T",";">>, <<"if","(","Lit",")","{","}">>, <<"while","(","Lit",")","{","}">>,
                  <<"id","=","Lit","?","Lit",":","Lit",";">>, <<"id","=","id","+","Lit",";">>, <<"id","=","Lit","==","id",";">>, <<"id","=","-","Lit",";">>, <<"id","=","-","-","Lit",";">>, <<"id","=","id","-","-","Lit",";">>, <<"id","=","!","Lit",";">>,
                  <<"id","=","(","Lit",")",";">>, <<"T","id","=","Lit",",","id","=","Lit",";">>, <<"id","+=","Lit",";">>, <<"for","(","T","id","=","Lit",";","Lit",";","id","+=","Lit",")","{","}">>, <<"id","=","Lit","??","Lit",";">>, <<"Lit",";">>,
                  <<"id","=","new","T1","(","id","=","Lit",",","id","=","Lit",")",";">>, <<"id",".","id","(","Lit",")",".","id","(","Lit",")",";">>, <<"id","=","'s'",".","id","(","Lit",")",";">> >>,
  (* what a key, a value, an element of an initializer can be *)
  KeyInit  |-> << <<"id","=>","id">>, <<"-","P","=>","-","P">>, <<"!","P","=>","!","P">>, <<"(","E",")","=>","(","E",")">>, <<"(","T",")","P","=>","(","T",")","P">>, <<"UpdStmt","=>","UpdStmt">>, <<"New","=>","New">>, <<"Call","=>","Call">>,
                  <<"id","+","id","=>","id","+","id">>, <<"id","=>","Cond">>, <<"Cond","=>","id">>, <<"id","=>","Inst">>, <<"Inst","=>","id">>, <<"FieldAcc","=>","FieldAcc">>, <<"id","[","E","]","=>","id","[","E","]">>, <<"[","Soql","]","=>","[","Soql","]">>,
                  <<"T",".","class","=>","T",".","class">>, <<"id","=>","id","=","id">>, <<"Bin","=>","id">>, <<"id","=>","Bin">>, <<"this","=>","this">>, <<"Lit","=>","Lit">>, <<"[","Sosl","]","=>","id">> >>,
  New      |-> << <<"new","T1","(","Args",")">>, <<"new","List","<","T",">","(","Args",")">>, <<"new","List","<","T",">","{","Inits","}">>, <<"new","Map","<","T",",","T",">","(","Args",")">>,
                  <<"new","Map","<","T",",","T",">","{","MapInits","}">>, <<"new","T1","[","E","]">>, <<"new","T1","[","]","{","Inits","}">>, <<"new","Set","<","T",">","{","Inits","}">>, <<"new","T1","(","id","=","E",",","id","=","E",")">>,
                  <<"new","T1","(","Args",")","{","Members","}">>, <<"new","T1","(","id","=","E",")">>, <<"new","T1","[","E","]","[","E","]">>, <<"NEW","T1","(",")">> >>,
  T1       |-> << <<"id">>, <<"id",".","id">>, <<"id","<","T",">">> >>,
  Args     |-> << << >>, <<"E">>, <<"E",",","E">>, <<"E",",","E",",","E">> >>,
  Inits    |-> << << >>, <<"E">>, <<"E",",","E">>, <<"ArrInit",",","ArrInit">> >>,
  MapInits |-> << << >>, <<"E","=>","E">>, <<"E","=>","E",",","E","=>","E">> >>,
  ArrInit  |-> << <<"{","}">>, <<"{","E","}">>, <<"{","E",",","E","}">> >>,
  Call     |-> << <<"id","(","Args",")">>, <<"id",".","id","(","Args",")">>, <<"Call",".","id","(","Args",")">>, <<"PO","?.","id","(","Args",")">>, <<"this",".","id","(","Args",")">>, <<"super",".","id","(","Args",")">>,
                  <<"New",".","id","(","Args",")">>, <<"id",".","id",".","id","(","Args",")">>, <<"PO","[","E","]",".","id","(","Args",")">>, <<"(","E",")",".","id","(","Args",")">>, <<"[","Soql","]",".","id","(","Args",")">>, <<"'s'",".","id","(","Args",")">>,
                  <<"id",".","<","T",">","id","(",")">>, <<"id","(","Args",")",".","id","(","Args",")",".","id","(","Args",")">>, <<"id",".","id","(","Args",")",".","id","(","Args",")",".","id","(","Args",")">> >>,
  Nav      |-> << <<".">>, <<"?.">>, <<".","<","T",">">>, <<"[","E","]",".">>, <<"?.","id",".">> >>,
  Nav1     |-> << <<".">>, <<"?.">> >>,
  FieldAcc |-> << <<"id",".","id">>, <<"this",".","id">>, <<"PO",".","id">>, <<"id","?.","id">>, <<"super",".","id">>, <<"id",".","id",".","id">>, <<"PO","?.","id">>, <<"PO","[","E","]",".","id">>, <<"New",".","id">>, <<"id",".","this">> >>,

  (* ---- types ------------------------------------------------------------ *)
  T0       |-> << <<"void">>, <<"T">> >>,
  T        |-> << <<"id">>, <<"id",".","id">>, <<"List","<","T",">">>, <<"Map","<","T",",","T",">">>, <<"id","[","]">>, <<"Boolean">>, <<"boolean">>, <<"Set","<","T",">">>, <<"id",".","id",".","id">>, <<"List","<","T",">","[","]">>, <<"id",".","List","<","T",">">>, <<"List","<","T",">",".","id">>,
                  <<"Map","<","T",",","List","<","T",">",">">>, <<"id","[","]","[","]">>, <<"java:","id",".","id">>, <<"VOID">>,
                  <<"id",".","id","[","]">>, <<"Boolean","[","]">>, <<"Map","<","T",",","T",">","[","]">>, <<"java:","id",".","id",".","id">> >>,
  TCtx     |-> << <<"T","id","(",")","{","}">>, <<"void","id","(","T","id",")","{","}">>, <<"void","id","(","T","id",",","T","id",")","{","}">>, <<"void","id","(",")","{","T","id",";","}">>, <<"void","id","(",")","{","id","=","(","T",")","id",";","}">>,
                  <<"void","id","(",")","{","id","=","id","instanceof","T",";","}">>, <<"void","id","(",")","{","for","(","T","id",":","id",")","{","}","}">>, <<"class","id","extends","T","{","}">>, <<"class","id","implements","T",",","T","{","}">>,
                  <<"void","id","(",")","{","try","{","}","catch","(","T","id",")","{","}","}">>, <<"T","id","{","get",";","}">>, <<"void","id","(",")","{","id","=","new","List","<","T",">","(",")",";","}">>, <<"interface","id","extends","T","{","}">>,
                  <<"void","id","(",")","{","id","=","T",".","class",";","}">>, <<"T","id","=","id",";">>, <<"void","id","(",")","{","switch","on","id","{","when","T","id","{","}","}","}">>, <<"void","id","(","final","T","id",")","{","}">>, <<"T","id","[","]",";">> >>,

  (* ---- SOQL -------------------------------------------------------------- *)
  Soql     |-> << <<"SELECT","Sel","FROM","From","Using","Where","With","Group","Order","Limit","Offset","ForC","Upd8","AllRows">> >>,
  Sel      |-> << <<"sf">>, <<"sf",",","sf">>, <<"sf",".","sf">>, <<"COUNT","(",")">>, <<"COUNT","(","sf",")">>, <<"sf",",","(","SubQ",")">>, <<"COUNT","(","sf",")","sf">>, <<"FIELDS","(","ALL",")">>, <<"sf",",","sf",".","sf",",","sf">>,
                  <<"TYPEOF","sf","WHEN","sf","THEN","sf",",","sf","ELSE","sf","END">>, <<"TYPEOF","sf","WHEN","sf","THEN","sf","WHEN","sf","THEN","sf","END">>, <<"sf","sf">>, <<"FORMAT","(","sf",")","sf">>, <<"toLabel","(","sf",".","sf",")">>,
                  <<"convertCurrency","(","sf",")",",","sf">>, <<"FIELDS","(","STANDARD",")",",","sf">>, <<"DISTANCE","(","sf",",","GEOLOCATION","(","1.5",",","2.5",")",",","'mi'",")">>, <<"(","SubQ",")">>, <<"COUNT_DISTINCT","(","sf",")">>,
                  <<"sf",",","sf",",","sf",",","sf">>,
                  <<"MAX","(","sf",")","sf",",","MIN","(","sf",")">>,
                  <<"sf",",","(","SubQ",")",",","(","SubQ",")">>,
                  <<"CALENDAR_YEAR","(","convertTimezone","(","sf",")",")","sf">>, <<"FORMAT","(","convertCurrency","(","sf",")",")","sf">>, <<"GROUPING","(","sf",")","sf">>, <<"FIELDS","(","CUSTOM",")",",","sf">>, <<"AVG","(","sf",".","sf",")",",","SUM","(","sf",")","sf">>,
                  <<"DAY_IN_MONTH","(","sf",")",",","HOUR_IN_DAY","(","convertTimezone","(","sf",".","sf",")",")">> >>,
  SubQ     |-> << <<"SELECT","sf","FROM","sf">>, <<"SELECT","sf",",","sf","FROM","sf","WHERE","BoolE">>, <<"SELECT","sf","FROM","sf","ORDER BY","sf","LIMIT","1">> >>,
  From     |-> << <<"sf">>, <<"sf","sf">>, <<"sf",",","sf">>, <<"sf",".","sf">>, <<"sf","AS","sf">>, <<"sf","sf",",","sf",".","sf","sf">>,
                  <<"sf",",","sf",".","sf",",","sf",".","sf">>,
                  <<"sf",",","sf",".","sf","sf">> >>,
  Using    |-> << << >>, <<"USING","SCOPE","mine">>, <<"USING","SCOPE","delegated">>,
                  <<"USING","LOOKUP","sf">>, <<"USING","LOOKUP","sf",".","sf">>, <<"USING","LOOKUP","sf",".","sf","BIND","sf","=","SL">>, <<"USING","LOOKUP","sf",".","sf","BIND","sf","=","SL",",","sf","=","SL">>,
                  <<"USING","ListView","=","sf">>, <<"USING","SCOPE","everything">>, <<"USING","SCOPE","mine_and_my_groups">>, <<"USING","SCOPE","my_territory">>, <<"USING","SCOPE","my_team_territory">>, <<"USING","SCOPE","TEAM">> >>,
  Where    |-> << << >>, <<"WHERE","BoolE">> >>,
  BoolE    |-> << <<"Cmp">>, <<"Cmp","AND","Cmp">>, <<"Cmp","OR","Cmp">>, <<"(","BoolE",")">>, <<"NOT","Cmp">>, <<"NOT","(","BoolE",")">>, <<"Cmp","AND","(","BoolE",")">>, <<"(","BoolE",")","OR","(","BoolE",")">>, <<"Cmp","AND","Cmp","AND","Cmp">>,
                  <<"Cmp","OR","(","BoolE",")","OR","Cmp">>, <<"(","NOT","Cmp",")","AND","Cmp">>, <<"(","Cmp","OR","Cmp",")","AND","(","Cmp","OR","Cmp",")">>, <<"(","(","Cmp",")",")">>, <<"(","Cmp","AND","Cmp",")","AND","Cmp">>,
                  <<"NOT","(","NOT","Cmp",")">>,
                  <<"NOT","(","BoolE","AND","Cmp",")">>,
                  <<"Cmp","AND","(","Cmp","OR","(","Cmp","AND","Cmp",")",")">>,
                  <<"Cmp","OR","Cmp","OR","Cmp","OR","Cmp">> >>,
  Cmp      |-> << <<"SV","=","SL">>, <<"SV","COp","SL">>, <<"SV","IN",":","P">>, <<"SV","IN","(","SL",",","SL",")">>, <<"SV","IN","(","SubQ",")">>, <<"SV","NOT IN",":","P">>, <<"SV","=",":","E">>, <<"SV","LIKE","SL">>, <<"SV","INCLUDES","(","SL",")">>, <<"SV","EXCLUDES","(","SL",",","SL",")">>, <<"SV","IN","(",":","P",")">>, <<"SV","NOT IN","(","SubQ",")">> >>,
  COp      |-> << <<"!=">>, <<"<">>, <<">">>, <<"<=">>, <<">=">>, <<"<>">> >>,
  SV       |-> << <<"sf">>, <<"sf",".","sf">>, <<"toLabel","(","sf",")">>, <<"sf",".","sf",".","sf">>, <<"DISTANCE","(","sf",",","GEOLOCATION","(",":","id",",",":","id",")",",","'km'",")">>, <<"CALENDAR_YEAR","(","convertTimezone","(","sf",")",")">>, <<"DISTANCE","(","sf",",","GEOLOCATION","(","1",",","2",")",",","'mi'",")">>, <<"COUNT","(","sf",".","sf",")">> >>,
  SL       |-> << <<"1">>, <<"'s'">>, <<"true">>, <<"null">>, <<"TODAY">>, <<"LAST_N_DAYS",":","5">>, <<"2020-01-01">>, <<"2020-01-01T00:00:00Z">>, <<"1.5">>, <<"USD100">>, <<"-1">>, <<"FALSE">>, <<"NULL">>, <<"last_month">>, <<"this_fiscal_year">> >>,
  With     |-> << << >>, <<"WITH","SECURITY_ENFORCED">>, <<"WITH","USER_MODE">>, <<"WITH","SYSTEM_MODE">>, <<"WITH","UserId","=","'s'">>, <<"WITH","RecordVisibilityContext","(","maxDescriptorPerRecord","=","1",",","supportsDomains","=","true",")">>, <<"WITH","DATA CATEGORY","sf","AT","sf">>, <<"WITH","DATA CATEGORY","sf","ABOVE","(","sf",",","sf",")","AND","sf","BELOW","sf">> >>,
  Group    |-> << << >>, <<"GROUP BY","sf">>, <<"GROUP BY","sf",",","sf",".","sf">>, <<"GROUP BY","ROLLUP","(","sf",",","sf",")">>, <<"GROUP BY","sf","HAVING","COUNT","(","sf",")",">","1">>, <<"GROUP BY","CUBE","(","sf",")","HAVING","BoolE">>,
                  <<"GROUP BY","CALENDAR_MONTH","(","sf",")",",","CALENDAR_YEAR","(","convertTimezone","(","sf",".","sf",")",")">>, <<"GROUP BY","sf","HAVING","COUNT","(","sf",")",">","1","AND","(","MAX","(","sf",")","<","1","OR","sf","=","SL",")">> >>,
  Order    |-> << << >>, <<"ORDER BY","sf">>, <<"ORDER BY","sf","ASC">>, <<"ORDER BY","sf","DESC","NULLS LAST">>, <<"ORDER BY","sf",",","sf",".","sf","NULLS FIRST">>, <<"ORDER BY","COUNT","(","sf",")","desc">>,
                  <<"ORDER BY","DISTANCE","(","sf",",","GEOLOCATION","(","1.5",",","2.5",")",",","'mi'",")","ASC","NULLS LAST">>, <<"ORDER BY","CALENDAR_YEAR","(","sf",")","nulls first",",","sf">> >>,
  Limit    |-> << << >>, <<"LIMIT","1">>, <<"LIMIT",":","E">> >>,
  Offset   |-> << << >>, <<"OFFSET","1">>, <<"OFFSET",":","id">> >>,
  ForC     |-> << << >>, <<"FOR","UPDATE">>, <<"FOR","VIEW">>, <<"FOR","REFERENCE">>, <<"FOR","VIEW",",","REFERENCE">>,
                  <<"FOR","UPDATE",",","VIEW">> >>,
  Upd8     |-> << << >>, <<"UPDATE","TRACKING">>, <<"UPDATE","VIEWSTAT">> >>,
  AllRows  |-> << << >>, <<"ALL ROWS">> >>,

  (* ---- SOSL -------------------------------------------------------------- *)
  Sosl     |-> << <<"FIND",":","E","InC","Ret","SWith","Limit">>, <<"FIND","'s t'","InC","Ret","SWith","Limit">>,
                  <<"FIND",":","E","InC","Ret","SWith","Limit","Offset">>,
                  <<"FIND","'s'","RETURNING","sf","RETURNING","sf">>,
                  <<"FIND","'s'","Ret","UPDATE","TRACKING">>,
                  <<"FIND","'s'","Ret","SWith","SWith">>,
                  <<"FIND","'s'","InC","Ret","SWith","USING","PHRASE SEARCH","Limit">>, <<"FIND",":","E","Ret","USING","advanced search","Limit","Offset">>,
                  <<"FIND","'s AND \\'t\\' OR (u* AND v?)'","InC","Ret">> >>,
  InC      |-> << << >>, <<"IN","ALL","FIELDS">>, <<"IN","NAME","FIELDS">>, <<"IN","EMAIL","FIELDS">>, <<"IN","PHONE","FIELDS">>, <<"in","sidebar","fields">> >>,
  Ret      |-> << << >>, <<"RETURNING","sf">>, <<"RETURNING","sf","(","sf",")">>, <<"RETURNING","sf","(","sf",",","sf",")",",","sf","(","sf",")">>, <<"RETURNING","sf","(","sf","WHERE","BoolE","ORDER BY","sf","LIMIT","1","OFFSET","1",")">>, <<"RETURNING","sf",",","sf">>, <<"RETURNING","sf","(","sf","USING","ListView","=","sf",")">>, <<"RETURNING","sf","(","Sel",")">>, <<"RETURNING","sf","(","sf","Using","Where","Order","Limit","Offset",")">> >>,
  SWith    |-> << << >>, <<"WITH","HIGHLIGHT">>, <<"WITH","SNIPPET","(","target_length","=","1",")">>, <<"WITH","DIVISION","=","'s'">>, <<"WITH","METADATA","=","'LABELS'">>, <<"WITH","NETWORK","=","'s'">>, <<"WITH","NETWORK","IN","(","'s'",",","'t'",")">>, <<"WITH","PricebookId","=","'s'">>, <<"WITH","SPELL_CORRECTION","=","false">>, <<"WITH","DATA CATEGORY","sf","AT","sf">>, <<"WITH","SNIPPET">>, <<"WITH","DIVISION","=",":","id">>,
                  <<"WITH","NETWORK","=",":","id">>, <<"WITH","NETWORK","!=","'s'">>, <<"WITH","NETWORK","IN",":","id">>, <<"WITH","NETWORK","=","SL">>, <<"with","spell_correction","=","TRUE">> >>
]

(* For a nonterminal that takes more than one deviation to reach, a place   *)
(* where it can stand: the start symbol S_X is X there.                     *)
InClass(x)  == <<"class","id","{">> \o x \o <<"}">>
InMethod(x) == InClass(<<"void","id","(",")","{">> \o x \o <<"}">>)
Assigned(x) == InMethod(<<"id","=">> \o x \o <<";">>)
Query(x)    == Assigned(<<"[","SELECT","sf","FROM","sf">> \o x \o <<"]">>)
Search(x)   == Assigned(<<"[","FIND","'s'">> \o x \o <<"]">>)

Starts == [
  S_Bin  |-> << Assigned(<<"Bin">>) >>,   S_Cond |-> << Assigned(<<"Cond">>) >>,  S_Un   |-> << Assigned(<<"Un">>) >>,
  S_Upd1 |-> << Assigned(<<"Upd1">>) >>,  S_Cast |-> << Assigned(<<"Cast">>) >>,  S_New  |-> << Assigned(<<"New">>) >>,
  S_Call |-> << Assigned(<<"Call">>) >>,  S_Acc  |-> << Assigned(<<"FieldAcc">>) >>, S_Lit |-> << Assigned(<<"Lit">>) >>,
  S_Inst |-> << Assigned(<<"Inst">>) >>, S_LitS |-> << InMethod(<<"LitStmt">>) >>, S_Key |-> << Assigned(<<"new","Map","<","id",",","id",">","{","KeyInit",",","KeyInit","}">>) >>,
  S_EStmt |-> << InMethod(<<"EStmt1">>) >>, S_Body |-> << InMethod(<<"while","(","id",")","SStmt">>), InMethod(<<"for","(",";",";",")","SStmt">>), InMethod(<<"for","(","id","id",":","id",")","SStmt">>), InMethod(<<"if","(","id",")","SStmt","else","SStmt">>) >>,
  S_TPar |-> << <<"class","id","<","TParam",",","TParam",">","{","}">>, InClass(<<"<","TParam",",","TParam",">","T","id","(",")","{","}">>), <<"interface","id","<","TParam",">","{","}">> >>,
  S_Inv |-> << InClass(<<"id","(",")","{","CtorInv","id","(",")",";","}">>) >>, S_WE |-> << InMethod(<<"switch","on","id","{","when","WExpr",",","WExpr","{","}","}">>) >>, S_Sosl |-> << Assigned(<<"[","Sosl","]">>) >>,
  S_AP |-> << <<"@","id","(","AV",")","class","id","{","}">>, InClass(<<"@","id","(","id","=","AV","id","=","AV",")","T","id",";">>) >>,
  S_P    |-> << Assigned(<<"!","P">>) >>, S_PO   |-> << Assigned(<<"PO",".","id">>) >>,
  S_Chain|-> << Assigned(<<"PO","Nav","id","(","Args",")","Nav","id","(","Args",")","Nav1","id">>) >>,
  S_Args |-> << InMethod(<<"id","(","Args",")",";">>) >>, S_CallS |-> << InMethod(<<"Call",";">>) >>, S_NewS |-> << InMethod(<<"New",";">>) >>,
  S_Asgn |-> << InMethod(<<"AsgnLhs","AsgnOp","E",";">>) >>, S_Local |-> << InMethod(<<"LMods","T","Decls",";">>) >>,
  S_If   |-> << InMethod(<<"If">>) >>,    S_For  |-> << InMethod(<<"For">>) >>,   S_Each |-> << InMethod(<<"Each">>) >>,
  S_While|-> << InMethod(<<"While">>) >>, S_Do   |-> << InMethod(<<"Do">>) >>,    S_Try  |-> << InMethod(<<"Try">>) >>,
  S_Switch |-> << InMethod(<<"Switch">>) >>, S_When |-> << InMethod(<<"switch","on","id","{","When","When","}">>) >>,
  S_Dml  |-> << InMethod(<<"Dml">>) >>,   S_RunAs |-> << InMethod(<<"RunAs">>) >>, S_Upd |-> << InMethod(<<"for","(",";",";","Upd",")","{","}">>) >>,
  S_Field |-> << InClass(<<"Field">>) >>, S_Method |-> << InClass(<<"Method">>) >>, S_Ctor |-> << InClass(<<"Ctor">>) >>,
  S_Prop |-> << InClass(<<"Prop">>) >>,   S_Accs |-> << InClass(<<"T","id","{","Accs","}">>) >>, S_Params |-> << InClass(<<"void","id","(","Params",")","{","}">>) >>,
  S_Class |-> << <<"Class">> >>, S_Intf |-> << <<"Interface">> >>, S_Enum |-> << <<"Enum">> >>, S_Trigger |-> << <<"Trigger">> >>,
  S_Sub  |-> << InClass(<<"Class">>) >>, S_SubIntf |-> << InClass(<<"Interface">>) >>, S_SubEnum |-> << InClass(<<"Enum">>) >>,
  S_Anno |-> << InClass(<<"Anno","void","id","(",")","{","}">>) >>, S_AV |-> << <<"@","id","(","id","=","AV",")","class","id","{","}">> >>,
  S_Inits |-> << Assigned(<<"new","List","<","id",">","{","Inits","}">>) >>, S_MapInits |-> << Assigned(<<"new","Map","<","id",",","id",">","{","MapInits","}">>) >>,
  S_Sel  |-> << Assigned(<<"[","SELECT","Sel","FROM","sf","]">>) >>, S_From |-> << Assigned(<<"[","SELECT","sf","FROM","From","]">>) >>,
  S_SubQ |-> << Assigned(<<"[","SELECT","(","SubQ",")","FROM","sf","]">>) >>,
  S_Bool |-> << Query(<<"WHERE","BoolE">>) >>, S_Cmp |-> << Query(<<"WHERE","Cmp">>) >>, S_Cmp2 |-> << Query(<<"WHERE","Cmp","AND","Cmp">>) >>,
  S_SV   |-> << Query(<<"WHERE","SV","=","SL">>) >>, S_Clauses |-> << Query(<<"Using","Where","With","Group","Order","Limit","Offset","ForC","Upd8","AllRows">>) >>,
  S_InC  |-> << Search(<<"InC","Ret">>) >>, S_SWith |-> << Search(<<"Ret","SWith","Limit">>) >> ]

AllRules == Rules @@ Starts
NT == DOMAIN AllRules

VARIABLES root, stk, toks, nid, dev, phase, tri

vars == <<root, stk, toks, nid, dev, phase, tri>>

(* Emit the terminals on top of the stack until a choice (or the end).     *)
RECURSIVE Drain(_, _, _)
Drain(s, out, n) ==
  IF s = << >> THEN [s |-> s, out |-> out, n |-> n]
  ELSE LET h == Head(s) IN
       IF h \in NT
       THEN IF Len(AllRules[h]) = 1 THEN Drain(AllRules[h][1] \o Tail(s), out, n)
            ELSE [s |-> s, out |-> out, n |-> n]
       ELSE IF h = "id" THEN Drain(Tail(s), Append(out, "v" \o ToString(n)), n + 1)
       ELSE IF h = "sf" THEN Drain(Tail(s), Append(out, "F" \o ToString(n)), n + 1)
       ELSE Drain(Tail(s), Append(out, h), n)

Init == /\ root \in Roots
        /\ LET d == Drain(<<root>>, << >>, 1) IN stk = d.s /\ toks = d.out /\ nid = d.n
        /\ dev = 0
        /\ phase = "derive"
        /\ tri = << >>

Expand(i) ==
  /\ phase = "derive" /\ stk # << >>
  /\ i \in 1 .. Len(AllRules[Head(stk)])
  /\ dev + (IF i = 1 THEN 0 ELSE 1) <= MaxDev
  /\ LET d == Drain(AllRules[Head(stk)][i] \o Tail(stk), toks, nid) IN
       stk' = d.s /\ toks' = d.out /\ nid' = d.n
  /\ Len(toks') <= MaxLen
  /\ dev' = dev + (IF i = 1 THEN 0 ELSE 1)
  /\ UNCHANGED <<root, phase, tri>>

Finish ==
  /\ phase = "derive" /\ stk = << >>
  /\ phase' = "trivia"
  /\ UNCHANGED <<root, stk, toks, nid, dev, tri>>

(* Gap g (0..Len) precedes token g+1; chosen in increasing order.           *)
Trivia(g, k) ==
  /\ phase = "trivia"
  /\ Len(tri) < MaxTrivia
  /\ g \in 0 .. Len(toks)
  /\ tri # << >> => tri[Len(tri)][1] < g
  /\ tri' = Append(tri, <<g, k>>)
  /\ UNCHANGED <<root, stk, toks, nid, dev, phase>>

Emit ==
  /\ phase = "trivia"
  /\ phase' = "done"
  /\ PrintT("PROG " \o ToJson([r |-> root, d |-> dev, t |-> toks, g |-> tri]))
  /\ UNCHANGED <<root, stk, toks, nid, dev, tri>>

Next == \/ \E i \in 1 .. 40 : Expand(i)
        \/ Finish
        \/ \E g \in 0 .. MaxLen, k \in TriviaKinds : Trivia(g, k)
        \/ Emit
        \/ (phase = "done" /\ UNCHANGED vars)

Spec == Init /\ [][Next]_vars

(* Model properties of the generator itself.                                *)
TypeOK == /\ dev <= MaxDev /\ Len(tri) <= MaxTrivia /\ Len(toks) <= MaxLen
          /\ phase \in {"derive", "trivia", "done"}
Complete == phase # "derive" => stk = << >>
=============================================================================
