; Statements: what is recognised, and the code they stand for.
(datatypes
  (Case (case_ (c_v W) (c_b W)))
  (Stmt
    SNull
    (SSeq (sq_l (List Stmt)))
    (SExpr (se_x Expr))
    (SRet (sr_x Expr))
    (SAuto (au_k W) (au_d (List VDecl)))
    (SIf (if_x Expr) (if_a Stmt) (if_b Stmt))
    (SWhile (wh_x Expr) (wh_b Stmt))
    (SSwitch (sw_id W) (sw_x Expr) (sw_b Stmt) (sw_cs (List W)))
    (SCase (sc_id W) (sc_v W) (sc_s Stmt))
    (SGoto (go_n Str))
    (SLabel (la_l Str) (la_s Stmt))
    (SFun (fu_ps (List Str)) (fu_b Stmt)))
  (TRes sno (yes (t_st Stmt) (t_s Stream) (t_e Env) (t_cs (List W))))
  (ARes ano (ayes (a_st Stmt) (a_s Stream) (a_e Env)))
  (LRes ldup lnew))

(fun fmtdd ((f Str) (a W) (b W)) Str)
(fun islabel ((n Str)) Bool)
; the number of the switch statement whose expression begins at a point of the text
(fun swid ((s Stream)) W)

(def lname ((n Str)) Str (strcat "label." n))
(def caselab ((id W) (v W)) Str (fmtdd "case.%d.%d" id v))
(def DEF ((e Env) (n Str)) Env (upd e e_def (store (e_def e) n true)))

; the cases of a switch: value and block
(defrec CASES ((id W) (l (List W))) (List Case)
  (match l (nil nil:Case) ((snoc p v) (snoc (CASES id p) (case_ v (lblk (caselab id v)))))))

; memory after the declaration of variables, the first of them number k
(def dw ((k W) (d VDecl) (w World)) World
  (wst w (laddr k) (ite (= (proj 1 d) -1) 0 (+ (laddr k) 8))))
(defrec daw ((l (List VDecl)) (k W) (w World)) World
  (match l (nil w) ((snoc p d) (dw (+ k (len p)) d (daw p k w)))))

(flow SNull () (entry exit))
(flow SExpr (x) (entry (eff (rw x W)) exit))
(flow SRet (x) (entry (eval k x) (ret k)))
(flow SAuto (k d) (entry (eff (daw d k W)) exit))
(flow SIf (x a b)
  (entry (eval k x) (if (not (= k 0)) A B))
  (A (stmt a) (jump X))
  (B (stmt b) (jump X))
  (X exit))
(flow SWhile (x b)
  (entry (jump L))
  (L (eval k x) (if (not (= k 0)) B X))
  (B (stmt b) (jump L))
  (X exit))
(flow SSwitch (id x b cs)
  (entry (eval k x) (switch k X (CASES id cs)))
  (B (stmt b) (jump X))
  (X exit)
  (orphan B))
(flow SCase (id v s)
  (entry (jump L))
  (L (stmt s) exit)
  (define L (caselab id v)))
(flow SLabel (n s)
  (entry (jump L))
  (L (stmt s) exit)
  (define L (lname n)))
(flow SGoto (n) (entry (goto (lname n))))

; expression statement
(def PXS ((s Stream) (e Env)) ARes
  (match (PE 15 s e) (pfail ano)
  ((pok x s1 e1) (match (WS s1) (sfail ano)
  ((sok s2) (match (XC (bv 32 59) s2) (sfail ano) ((sok s3) (ayes (SExpr x) s3 e1))))))))
; an expression that begins with the first i bytes of a name
(def KEEPCS ((r ARes) (cs (List W))) TRes
  (match r (ano sno) ((ayes st s e) (yes st s e cs))))
; the name n read before, then an expression
(defrec PXL ((n Str) (i W) (cs (List W)) (s Stream) (e Env)) TRes
  (ite (bvsle i 0) (KEEPCS (PXS s e) cs) (PXL n (- i 1) cs (scons (nth n (- i 1)) s) e)))

(def PRET ((s Stream) (e Env)) ARes
  (match s (seof ano) ((sbad k) ano)
  ((scons c u) (cond
    ((= c ';') (ayes (SRet (EK 0)) u e))
    ((= c (bv 8 40))
      (match (PE 15 u e) (pfail ano)
      ((pok x s1 e1) (match (WS s1) (sfail ano)
      ((sok s2) (match (XC (bv 32 41) s2) (sfail ano)
      ((sok s3) (match (WS s3) (sfail ano)
      ((sok s4) (match (XC (bv 32 59) s4) (sfail ano) ((sok s5) (ayes (SRet x) s5 e1))))))))))))
    (else ano)))))

(def PGOTO ((s Stream) (e Env)) ARes
  (match (IDENT s) (ifail ano)
  ((iok n t) (ite (= n nil:B8) ano
    (match (WS t) (sfail ano)
    ((sok u) (match (XC (bv 32 59) u) (sfail ano)
    ((sok v) (ayes (SGoto n) v (upd e e_gotos (snoc (e_gotos e) n)))))))))))

; the variables are declared one by one
(defrec AUD ((l (List VDecl)) (i W) (k W) (s Stream) (e Env)) ARes
  (ite (bvsle (len l) i) (ayes (SAuto k l) s e)
    (AUD l (+ i 1) k s (upd e e_locals (store (e_locals e) (proj 0 (nth l i)) (some (laddr (e_nl e)))) e_nl (+ (e_nl e) 1)))))
(def AWS ((z W) (s Stream)) NRes (match (WS s) (sfail nfail) ((sok t) (nok z t))))
; the size of a vector, up to the next separator
(def ASIZE ((s Stream)) NRes
  (match (WS s) (sfail nfail)
  ((sok t) (match t (seof nfail) ((sbad k) nfail)
  ((scons c u)
    (ite (= c (bv 8 93)) (AWS 0 u)
    (match (ite (= c (bv 8 39)) (CHR 0 0 u) (NUMB t)) (nfail nfail)
    ((nok z s1) (match (WS s1) (sfail nfail)
    ((sok s2) (match (XC (bv 32 93) s2) (sfail nfail) ((sok s3) (AWS z s3)))))))))))))
(def PAUN ((l (List VDecl)) (seen (Array Str Bool)) (s Stream) (e Env)) ARes
  (match s (seof ano) ((sbad k) ano)
  ((scons c u) (cond
    ((= c ';') (AUD l 0 (e_nl e) u e))
    ((= c ',') (PAU l seen u e))
    (else ano)))))
(defrec PAU ((l (List VDecl)) (seen (Array Str Bool)) (s Stream) (e Env)) ARes
  (match (IDENT s) (ifail ano)
  ((iok n t) (cond
    ((= n nil:B8) ano)
    ((select seen n) ano)
    ((is-some (select (e_locals e) n)) ano)
    (else (match (WS t) (sfail ano)
    ((sok u) (match u (seof ano) ((sbad k) ano)
    ((scons c v) (cond
      ((= c '[') (match (ASIZE v) (nfail ano)
        ((nok z s1) (PAUN (snoc l (tuple n z)) (store seen n true) s1 e))))
      ((or (= c ';') (= c ',')) (PAUN (snoc l (tuple n -1)) (store seen n true) u e))
      (else ano)))))))))))

(defrec gfindi ((l (List GR)) (i W) (n Str)) (Opt GR)
  (cond ((bvsle (len l) i) (none GR))
        ((= (gr_n (nth l i)) n) (some (nth l i)))
        (else (gfindi l (+ i 1) n))))
(def GFIND ((e Env) (n Str)) (Opt GR) (gfindi (e_mg e) 0 (gname n)))
; a word that another file or a library may define
(def EXTG ((n Str)) GR (gr (gname n) false (gwords (snoc nil:W 0)) 2 false))
(def PXTN ((s Stream) (e Env)) ARes
  (match (WS s) (sfail ano)
  ((sok t) (match t (seof ano) ((sbad k) ano)
  ((scons c u) (cond ((= c ';') (ayes SNull u e)) ((= c ',') (PXT u e)) (else ano)))))))
(defrec PXT ((s Stream) (e Env)) ARes
  (match (IDENT s) (ifail ano)
  ((iok n t) (cond
    ((= n nil:B8) ano)
    (else (match (GFIND e n)
      ((some g) (PXTN t (upd e e_globals (store (e_globals e) n (some g)))))
      (none (cond
        ((is-some (FFIND e n)) ano)
        ((select (e_used e) n) ano)
        (else (PXTN t (upd e e_mg (snoc (e_mg e) (EXTG n)) e_globals (store (e_globals e) n (some (EXTG n)))))))))))))
)

; the text after `else`
(def ELSE ((s Stream)) (Opt Stream)
  (match s (seof (none Stream)) ((sbad k) (none Stream)) ((scons c1 s1) (ite (not (= c1 'e')) (none Stream)
  (match s1 (seof (none Stream)) ((sbad k) (none Stream)) ((scons c2 s2) (ite (not (= c2 'l')) (none Stream)
  (match s2 (seof (none Stream)) ((sbad k) (none Stream)) ((scons c3 s3) (ite (not (= c3 's')) (none Stream)
  (match s3 (seof (none Stream)) ((sbad k) (none Stream)) ((scons c4 s4) (ite (not (= c4 'e')) (none Stream)
  (match s4 (seof (some s4)) ((sbad k) (some s4)) ((scons c5 s5) (ite (isid c5) (none Stream) (some s4)))))))))))))))))

; the entries of the switch instruction are added one by one
(defrec CL ((i W) (id W) (cs (List W)) (st Stmt) (s Stream) (e Env)) ARes
  (ite (bvsle (len cs) i) (ayes st s e) (CL (+ i 1) id cs st s e)))

; statements inside the switch number id (none if it is negative), after the cases cs
(defrec PS ((id W) (cs (List W)) (s Stream) (e Env)) TRes
  (match (WS s) (sfail sno)
  ((sok t) (match t (seof sno) ((sbad k) sno)
  ((scons c u) (cond
    ((= c '{') (PBLK id cs nil:Stmt u e))
    ((= c ';') (yes SNull u e cs))
    ((isletter c) (PKW id cs t e))
    (else (KEEPCS (PXS t e) cs))))))))
(defrec PBLK ((id W) (cs (List W)) (l (List Stmt)) (s Stream) (e Env)) TRes
  (match (WS s) (sfail sno)
  ((sok t) (match t (seof sno) ((sbad k) sno)
  ((scons c u)
    (ite (= c '}') (yes (SSeq l) u e cs)
    (match (PS id cs t e) (sno sno)
    ((yes st s1 e1 cs1) (PBLK id cs1 (snoc l st) s1 e1)))))))))
(defrec PKW ((id W) (cs (List W)) (s Stream) (e Env)) TRes
  (match (IDENT s) (ifail sno)
  ((iok n t) (match (WS t) (sfail sno)
  ((sok u) (cond
    ((= n "return") (KEEPCS (PRET u e) cs))
    ((= n "auto") (KEEPCS (PAU nil:VDecl (emptymap Str Bool) u e) cs))
    ((= n "extrn") (KEEPCS (PXT u e) cs))
    ((= n "if") (PIF id cs u e))
    ((= n "while") (PWH id cs u e))
    ((= n "switch") (KEEPCS (PSWT u e) cs))
    ((= n "case") (PCASE id cs u e))
    ((= n "goto") (KEEPCS (PGOTO u e) cs))
    (else (PLX n id cs u e))))))))
; a label, or an expression that begins with a name
(defrec PLX ((n Str) (id W) (cs (List W)) (s Stream) (e Env)) TRes
  (match s (seof sno) ((sbad k) sno)
  ((scons c u)
    (ite (= c ':')
      (ite (select (e_def e) (lname n)) sno
        (match (PS id cs u (DEF e (lname n))) (sno sno) ((yes st s1 e1 cs1) (yes (SLabel n st) s1 e1 cs1))))
      (PXL n (len n) cs (ite (isid c) (scons (bv 8 32) s) s) e)))))
(defrec PIF ((id W) (cs (List W)) (s Stream) (e Env)) TRes
  (match (XC (bv 32 40) s) (sfail sno)
  ((sok s1) (match (PE 15 s1 e) (pfail sno)
  ((pok x s2 e2) (match (WS s2) (sfail sno)
  ((sok s3) (match (XC (bv 32 41) s3) (sfail sno)
  ((sok s4) (match (PS id cs s4 e2) (sno sno)
  ((yes a s5 e5 cs5) (match (WS s5) (sfail sno)
  ((sok s6) (match (ELSE s6)
    (none (yes (SIf x a SNull) s6 e5 cs5))
    ((some s7) (match (PS id cs5 s7 e5) (sno sno)
      ((yes b s8 e8 cs8) (yes (SIf x a b) s8 e8 cs8))))))))))))))))))
(defrec PWH ((id W) (cs (List W)) (s Stream) (e Env)) TRes
  (match (XC (bv 32 40) s) (sfail sno)
  ((sok s1) (match (PE 15 s1 e) (pfail sno)
  ((pok x s2 e2) (match (WS s2) (sfail sno)
  ((sok s3) (match (XC (bv 32 41) s3) (sfail sno)
  ((sok s4) (match (PS id cs s4 e2) (sno sno)
  ((yes b s5 e5 cs5) (yes (SWhile x b) s5 e5 cs5))))))))))))
(defrec PSWT ((s Stream) (e Env)) ARes
  (match (PE 15 s e) (pfail ano)
  ((pok x s1 e1) (match (PS (swid s) nil:W s1 e1) (sno ano)
  ((yes b s2 e2 cs) (CL 0 (swid s) cs (SSwitch (swid s) x b cs) s2 e2))))))
(def CASEV ((s Stream)) NRes
  (match s (seof nfail) ((sbad k) nfail)
  ((scons c u) (cond ((= c (bv 8 39)) (CHR 0 0 u)) ((isdigit c) (NUMB s)) (else nfail)))))
(defrec PCASE ((id W) (cs (List W)) (s Stream) (e Env)) TRes
  (ite (bvslt id 0) sno
  (match (CASEV s) (nfail sno)
  ((nok v s1) (match (WS s1) (sfail sno)
  ((sok s2) (match (XC (bv 32 58) s2) (sfail sno)
  ((sok s3) (ite (select (e_def e) (caselab id v)) sno
    (match (PS id (snoc cs v) s3 (DEF e (caselab id v))) (sno sno)
    ((yes st s4 e4 cs4) (yes (SCase id v st) s4 e4 cs4))))))))))))

(contract GetOrCreateLabel (c name) (requires (islabel name))
  (do (ret (lblk name)) (ensure (not (= (lblk name) 0)))))
(contract DefineLabel (c name) (requires (islabel name))
  (match (ite (select (e_def E) name) ldup lnew)
    (ldup (ret nil))
    (lnew (ret (lblk name)) (set E (DEF E name)) (define name) (ensure (not (= (lblk name) 0))))))

(contract findGlobalByName (c name)
  (match (GFIND E name)
    ((some g) (ret (lglob g)))
    (none (ret nil))))
(loop findGlobalByName (inv (gfindi ?l ?i ?n)) (measure (- (len ?l) ?i)) (keep ?l ?n) (side (bvsle 0 ?i)) (cell rangeindex (- ?i 1)))
(loop findGlobalByName (inv (gfindi ?l ?i ?n)) (measure (- (len ?l) ?i)) (keep ?l ?n) (side (bvsle 0 ?i)) (cell i ?i))

(contract DeclareLocal (c name)
  (do (ret (lptr (laddr (e_nl E))))
      (set E (upd E e_locals (store (e_locals E) name (some (laddr (e_nl E)))) e_nl (+ (e_nl E) 1)))
      (set W (wst W (laddr (e_nl E)) 0))
      (ensure (= (awords (laddr (e_nl E))) 1))))
(contract DeclareLocalArray (c name size) (requires (not (= size -1)))
  (do (ret (lptr (laddr (e_nl E))))
      (set E (upd E e_locals (store (e_locals E) name (some (laddr (e_nl E)))) e_nl (+ (e_nl E) 1)))
      (set W (wst W (laddr (e_nl E)) (+ (laddr (e_nl E)) 8)))
      (ensure (= (awords (laddr (e_nl E))) (+ (ite (= size 0) 1 size) 1)))))

(contract parseAuto (l c)
  (match (PAU nil:VDecl (emptymap Str Bool) S E)
    ((ayes st s e) (ret enil) (set S s) (set E e) (set W (daw (au_d st) (au_k st) W)) (ensure (is-SAuto st)))
    (ano (fail))))
(loop parseAuto (inv (PAU ?l ?seen S E)) (cell decls ?l) (cell seen ?seen))
(loop parseAuto (inv (AUD ?l ?i ?k S E)) (measure (- (len ?l) ?i)) (keep ?l ?k) (cell i ?i) (cell decls ?l)
  (side (and (bvsle 0 ?i) (bvsle ?i (len ?l)))) (side (= (e_nl E) (+ ?k ?i))) (world (daw (take ?l ?i) ?k W)))

(contract parseExtrn (l c)
  (match (PXT S E)
    ((ayes st s e) (ret enil) (set S s) (set E e) (ensure (= st SNull)))
    (ano (fail))))
(loop parseExtrn (inv (PXT S E)))

(contract parseReturn (l c)
  (match (PRET S E)
    ((ayes st s e) (ret enil) (set S s) (set E e) (emit (stmt st)))
    (ano (fail))))
(contract parseGoto (l c)
  (match (PGOTO S E)
    ((ayes st s e) (ret enil) (set S s) (set E e) (emit (stmt st)))
    (ano (fail))))
(contract parseSwitch (l c) (opt newswitch)
  (match (PSWT S E)
    ((ayes st s e) (ret enil) (set S s) (set E e) (emit (stmt st)))
    (ano (fail))))
(loop parseSwitch (inv (CL ?i ?id ?cs ?st S E)) (measure (- (len ?cs) ?i)) (keep ?id ?cs ?st) (cell rangeindex (- ?i 1))
  (side (and (bvsle 0 ?i) (bvsle ?i (len ?cs)))) (swcases (CASES ?id (take ?cs ?i))))
; the cases may also be collected first
(loop parseSwitch (inv (CL ?i ?id ?cs ?st S E)) (measure (- (len ?cs) ?i)) (keep ?id ?cs ?st) (cell rangeindex (- ?i 1))
  (side (and (bvsle 0 ?i) (bvsle ?i (len ?cs)))) (cell arms (CASES ?id (take ?cs ?i))))

(contract parseStatementWithSwitch (l c switchID cases)
  (requires (=> cases.nil (bvslt switchID 0)))
  (match (PS switchID cases S E)
    ((yes st s e cs) (ret enil) (set S s) (term (bvult (slen s) (slen S))) (set E e) (set cases cs) (emit (stmt st)) (ensure (=> (bvslt switchID 0) (= cs cases))))
    (sno (fail))))
(loop parseStatementWithSwitch (inv (PBLK ?id ?cs ?l S E)) (term (bvult (slen S) (slen S0))) (keep ?id) (param cases ?cs) (code (SSeq ?l))
  (side (=> (bvslt ?id 0) (= ?cs cases))))
(contract parseKeywordOrExpressionWithSwitch (l c switchID cases)
  (requires (=> cases.nil (bvslt switchID 0)))
  (match (PKW switchID cases S E)
    ((yes st s e cs) (ret enil) (set S s) (term (bvult (slen s) (slen S))) (set E e) (set cases cs) (emit (stmt st)) (ensure (=> (bvslt switchID 0) (= cs cases))))
    (sno (fail))))
(loop parseKeywordOrExpressionWithSwitch (inv (PXL ?n ?i ?cs S E)) (keep ?n ?cs) (measure ?i) (term (bvule (+ (slen S) ?i) (slen S0))) (cell i (- ?i 1))
  (side (and (bvsle 0 ?i) (bvsle ?i (len ?n)))))
(contract parseIf (l c switchID cases)
  (requires (=> cases.nil (bvslt switchID 0)))
  (match (PIF switchID cases S E)
    ((yes st s e cs) (ret enil) (set S s) (set E e) (set cases cs) (emit (stmt st)) (ensure (=> (bvslt switchID 0) (= cs cases))))
    (sno (fail))))
(contract parseWhile (l c switchID cases)
  (requires (=> cases.nil (bvslt switchID 0)))
  (match (PWH switchID cases S E)
    ((yes st s e cs) (ret enil) (set S s) (set E e) (set cases cs) (emit (stmt st)) (ensure (=> (bvslt switchID 0) (= cs cases))))
    (sno (fail))))
(contract parseCase (l c switchID cases)
  (requires (=> cases.nil (bvslt switchID 0)))
  (match (PCASE switchID cases S E)
    ((yes st s e cs) (ret enil) (set S s) (set E e) (set cases cs) (emit (stmt st)) (ensure (=> (bvslt switchID 0) (= cs cases))))
    (sno (fail))))
