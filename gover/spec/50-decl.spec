; Definitions at the top level of a file.
(datatypes
  (SFRes (sfok (sf_e Env)))
  (PARes pano (paok (pa_l (List Str)) (pa_s Stream)))
  (FRes fno (fyes (f_ps (List Str)) (f_st Stmt) (f_s Stream) (f_e Env)))
  (IVRes ivno (ivok (iv_w W) (iv_s Stream) (iv_e Env)))
  (GRes gno (gok (g_s Stream) (g_e Env)))
  (VRes vbig (vsmall (v_l (List W))))
  (Top (tfun (tf_n Str) (tf_ps (List Str)) (tf_b Stmt)))
  (TopRes tno (tok (tp_p (List Top)) (tp_s Stream) (tp_e Env))))

; the argument in position k of the call that is running
(fun arg ((k W)) W)
; the B name of a symbol
(fun bname ((n Str)) Str)
(fun set0 ((l (List W)) (v W)) (List W))

; ---- names of the module
(defrec gremi ((l (List GR)) (i W) (n Str)) (Tuple Bool (List GR))
  (cond ((bvsle (len l) i) (tuple false l))
        ((= (gr_n (nth l i)) n) (tuple true (cat_GR (take l i) (drop_GR l (+ i 1)))))
        (else (gremi l (+ i 1) n))))
(def GREM ((e Env) (n Str)) Env (upd e e_mg (proj 1 (gremi (e_mg e) 0 (gname n)))))
(contract removeGlobalByName (c name)
  (match (gremi (e_mg E) 0 (gname name))
    ((tuple b l) (ret b) (set E (upd E e_mg l)))))
(loop removeGlobalByName (inv (gremi ?l ?i ?n)) (measure (- (len ?l) ?i)) (keep ?l ?n) (side (bvsle 0 ?i)) (cell rangeindex (- ?i 1)))
(loop removeGlobalByName (inv (gremi ?l ?i ?n)) (measure (- (len ?l) ?i)) (keep ?l ?n) (side (bvsle 0 ?i)) (cell i ?i))

; an intrinsic of the backend
(def INTR ((n Str)) FR (fr n 1 false))
(def GOCF ((e Env) (n Str)) Env
  (match (ffindi (e_mf e) 0 n)
    ((some f) e)
    (none (upd e e_mf (snoc (e_mf e) (INTR n))))))
(contract getOrCreateFunc (c funcName) (requires (isintr funcName))
  (match (ffindi (e_mf E) 0 funcName)
    ((some f) (ret (lfn f)) (ensure (= (fr_n f) funcName)))
    (none (ret (lfn (INTR funcName))) (set E (upd E e_mf (snoc (e_mf E) (INTR funcName)))))))
(loop getOrCreateFunc (inv (ffindi ?l ?i ?n)) (measure (- (len ?l) ?i)) (keep ?l ?n) (side (bvsle 0 ?i)) (cell rangeindex (- ?i 1)))
(loop getOrCreateFunc (inv (ffindi ?l ?i ?n)) (measure (- (len ?l) ?i)) (keep ?l ?n) (side (bvsle 0 ?i)) (cell i ?i))

; ---- functions
(def DFN ((n Str) (ps (List Str))) FR
  (ite (= (len ps) 0) (fr (gname n) 0 false) (fr (gname n) 1 true)))
(def DECLF ((n Str) (ps (List Str)) (e Env)) Env
  (upd e e_mf (snoc (FREM (e_mf e) (gname n)) (DFN n ps))
         e_fp (store (e_fp e) n (some ps))
         e_funs (store (e_funs e) n (some (DFN n ps)))))
(contract DeclareFunction (c name paramNames)
  (do (ret (lfn (DFN name paramNames))) (set E (DECLF name paramNames E))))

; memory after the parameters have taken the arguments
(defrec parn ((k W) (w World)) World
  (ite (bvsle k 0) w (wst (parn (- k 1) w) (laddr (- k 1)) (arg (- k 1)))))
(def parw ((l (List Str)) (w World)) World (parn (len l) w))
(def FRESHE ((e Env)) Env
  (upd e e_locals (emptymap Str (Opt W)) e_nl 0 e_def (emptymap Str Bool) e_gotos nil:Str))
(def PARM ((e Env) (n Str)) Env
  (upd e e_locals (store (e_locals e) n (some (laddr (e_nl e)))) e_nl (+ (e_nl e) 1)))
(defrec SFL ((l (List Str)) (i W) (e Env)) SFRes
  (ite (bvsle (len l) i)
    (sfok (ite (bvsle 2 (len l)) (GOCF e "llvm.va_end") e))
    (SFL l (+ i 1) (PARM e (nth l i)))))
(defrec SFUN ((l (List Str)) (e Env)) SFRes
  (cond ((= (len l) 0) (sfok e))
        ((= (len l) 1) (sfok (PARM e (nth l 0))))
        (else (SFL l 1 (GOCF (PARM e (nth l 0)) "llvm.va_start")))))
(def PSOF ((e Env) (f FR)) (List Str) (the (select (e_fp e) (bname (fr_n f)))))
(contract StartFunction (c fn) (opt newfn)
  (requires (is-lfn fn))
  (requires (= (fr_n (lf fn)) (gname (bname (fr_n (lf fn))))))
  (requires (= (select (e_funs E) (bname (fr_n (lf fn)))) (some (lf fn))))
  (requires (is-some (select (e_fp E) (bname (fr_n (lf fn))))))
  (requires (= (fr_np (lf fn)) (ite (= (len (PSOF E (lf fn))) 0) 0 1)))
  (requires (= (fr_va (lf fn)) (not (= (len (PSOF E (lf fn))) 0))))
  (match (SFUN (PSOF E (lf fn)) (FRESHE E))
    ((sfok e) (set E e) (set W (parw (PSOF E (lf fn)) W)) (check (= LB' (emptymap Str Bool))))))
(loop StartFunction (inv (SFL ?l ?i E)) (measure (- (len ?l) ?i)) (keep ?l) (cell i ?i) (ghost VA)
  (side (and (bvsle 1 ?i) (bvsle ?i (len ?l)))) (side (= (e_nl E) ?i)) (side (= VA ?i)) (side (= LB (emptymap Str Bool)))
  (world (parn ?i W)))
(loop StartFunction (inv (SFL ?l ?i E)) (measure (- (len ?l) ?i)) (keep ?l) (cell rangeindex (- ?i 1)) (ghost VA)
  (side (and (bvsle 1 ?i) (bvsle ?i (len ?l)))) (side (= (e_nl E) ?i)) (side (= VA ?i)) (side (= LB (emptymap Str Bool)))
  (world (parn ?i W)))
; over all but the first
(fun drop_L_bv8 ((l (List Str)) (i W)) (List Str))
(loop StartFunction (inv (SFL ?l ?i E)) (measure (- (len ?l) ?i)) (keep ?l) (cell rangeindex (- ?i 2)) (ghost VA)
  (side (and (bvsle 1 ?i) (bvsle ?i (len ?l)))) (side (= (e_nl E) ?i)) (side (= VA ?i)) (side (= LB (emptymap Str Bool)))
  (world (parn ?i W)))

; ---- definition of a function
(defrec PARGS ((l (List Str)) (s Stream)) PARes
  (match (WS s) (sfail pano)
  ((sok s1) (match (IDENT s1) (ifail pano)
  ((iok n t) (ite (= n nil:B8) pano
    (match (WS t) (sfail pano)
    ((sok u) (match u (seof pano) ((sbad k) pano)
    ((scons c v) (cond
      ((= c (bv 8 41)) (paok (snoc l n) v))
      ((= c ',') (PARGS (snoc l n) v))
      (else pano))))))))))))
(contract parseArguments (l)
  (match (PARGS nil:Str S)
    ((paok ps s) (ret ps enil) (set S s))
    (pano (fail))))
(loop parseArguments (inv (PARGS ?l S)) (cell params ?l))

; all labels that are targets have been defined
(defrec GOK ((g (List Str)) (i W) (d (Array Str Bool)) (ps (List Str)) (st Stmt) (s Stream) (e Env)) FRes
  (cond ((bvsle (len g) i) (fyes ps st s e))
        ((select d (lname (nth g i))) (GOK g (+ i 1) d ps st s e))
        (else fno)))
(def ENDF ((e Env)) Env (upd e e_locals (emptymap Str (Opt W))))
(defrec PBODY ((n Str) (ps (List Str)) (s Stream) (e Env)) FRes
  (match (SFUN ps (FRESHE (DECLF n ps e)))
  ((sfok e1) (match (PS -1 nil:W s e1) (sno fno)
  ((yes st s2 e2 cs) (GOK (e_gotos e2) 0 (e_def e2) ps st s2 (ENDF e2)))))))
(defrec PFUN ((n Str) (s Stream) (e Env)) FRes
  (match (WS s) (sfail fno)
  ((sok t) (match t (seof fno) ((sbad k) fno)
  ((scons c u) (ite (= c (bv 8 41))
    (PBODY n nil:Str u e)
    (match (PARGS nil:Str t) (pano fno) ((paok ps v) (PBODY n ps v e)))))))))
(contract parseFunction (l c name) (opt function)
  (match (PFUN name S E)
    ((fyes ps st s e) (ret enil) (set S s) (set E e) (body name ps st))
    (fno (fail))))
(loop parseFunction (inv (GOK ?g ?i ?d ?ps ?st ?s ?e)) (measure (- (len ?g) ?i)) (keep ?g ?d ?ps ?st ?s ?e) (cell rangeindex (- ?i 1)) (side (bvsle 0 ?i)))
(loop parseFunction (inv (GOK ?g ?i ?d ?ps ?st ?s ?e)) (measure (- (len ?g) ?i)) (keep ?g ?d ?ps ?st ?s ?e) (cell i ?i) (side (bvsle 0 ?i)))
(flow SFun (ps b) (entry (eff (parw ps W)) (stmt b) (ret 0)))

; ---- definition of data
(defrec IVAL ((s Stream) (e Env)) IVRes
  (match s (seof ivno) ((sbad k) ivno)
  ((scons c u) (cond
    ((= c (bv 8 39)) (match (CHR 0 0 u) (nfail ivno) ((nok v t) (ivok v t e))))
    ((= c (bv 8 34)) (match (STR nil:B8 u) (ifail ivno)
       ((iok v t) (ivok (gaddr (fmtd ".str.%d" (e_sid e))) t (NEWSTR v e)))))
    ((= c '-') (match (NUMB u) (nfail ivno) ((nok v t) (ivok (bvneg v) t e))))
    (else (match (NUMB s) (nfail ivno) ((nok v t) (ivok v t e))))))))
(contract parseIvalConst (l c) (opt toplevel)
  (match (IVAL S E)
    ((ivok w s e) (ret (lword w) enil) (set S s) (set E e))
    (ivno (fail))))

(def ADDG ((e Env) (n Str) (g GR)) Env
  (upd e e_mg (snoc (e_mg e) g) e_globals (store (e_globals e) n (some g))))
(def WORD1 ((n Str) (w W)) GR (gr (gname n) false (gwords (snoc nil:W w)) 0 false))
(contract DeclareGlobal (c name init) (opt toplevel)
  (requires (or (is-lnil init) (is-lword init)))
  (do (ret *) (set E (ADDG E name (WORD1 name (ite (is-lword init) (lw_ init) 0))))))
(contract DeclareGlobalWithMultipleValues (c name values) (opt toplevel wrap:values=lword)
  (do (ret *) (set E (ADDG E name (gr (gname name) true (gwords values) 0 false)))))
(defrec GDEF ((n Str) (l (List W))) GR
  (ite (bvslt 1 (len l)) (gr (gname n) true (gwords l) 0 false) (WORD1 n (nth l 0))))
; the values up to the semicolon, after those in l
(defrec PGL ((n Str) (l (List W)) (s Stream) (e Env)) GRes
  (match (WS s) (sfail gno)
  ((sok s1) (match (IVAL s1 e) (ivno gno)
  ((ivok w s2 e2) (match (WS s2) (sfail gno)
  ((sok s3) (match s3 (seof gno) ((sbad b) gno)
  ((scons c u) (cond
    ((= c ';') (gok u (ADDG e2 n (GDEF n (snoc l w)))))
    ((= c ',') (PGL n (snoc l w) u e2))
    (else gno)))))))))))
(defrec PGLOB ((n Str) (s Stream) (e Env)) GRes
  (match s (seof gno) ((sbad k) gno)
  ((scons c u) (ite (= c ';')
    (gok u (ADDG (GREM e n) n (WORD1 n 0)))
    (PGL n nil:W s (GREM e n))))))
(contract parseGlobal (l c name) (opt toplevel)
  (match (PGLOB name S E)
    ((gok s e) (ret enil) (set S s) (set E e))
    (gno (fail))))
(loop parseGlobal (inv (PGL ?n ?l S E)) (keep ?n) (cell initVals (words ?l)))

; the words of a vector after those in l: values, then zeros
(defrec PADI ((l (List W)) (v (List W)) (i W) (n W)) VRes
  (ite (bvsle n i) (vsmall l)
    (PADI (snoc l (ite (bvslt i (len v)) (nth v i) 0)) v (+ i 1) n)))
(def VSIZE ((n W) (l (List W))) W (ite (and (= n 0) (= (len l) 0)) 1 n))
(defrec VR ((k W) (l (List W))) VRes
  (ite (and (= (len l) 0) (bvslt 1 (VSIZE k l))) vbig (PADI (snoc nil:W 0) l 0 (VSIZE k l))))
(def DATAG ((n Str) (k W)) GR (gr (strcat (gname n) ".data") true (gzeros k) 0 false))
(contract DeclareGlobalArray (c name size init) (opt toplevel wrap:init=lword)
  (requires (and (bvsle 0 size) (bvsle (len init) size)))
  (match (VR size init)
    (vbig (ret *) (set E (ADDG (upd E e_mg (snoc (e_mg E) (DATAG name size))) name
        (gr (gname name) true (gwords (snoc nil:W (gaddr (strcat (gname name) ".data")))) 0 false))))
    ((vsmall l) (ret *) (set E (ADDG E name
        (gr (gname name) true (gwords (set0 l (+ (gaddr (gname name)) 8))) 0 false))))))
(loop DeclareGlobalArray (inv (PADI ?l ?v ?i ?n)) (measure (- ?n ?i)) (keep ?v ?n) (cell i ?i) (cell initVals (words ?l))
  (side (and (bvsle 0 ?i) (bvsle ?i ?n))) (side (= (len ?l) (+ ?i 1))))
(defrec VG ((n Str) (k W) (l (List W)) (e Env)) Env
  (match (VR k l)
    (vbig (ADDG (upd e e_mg (snoc (e_mg e) (DATAG n k))) n
        (gr (gname n) true (gwords (snoc nil:W (gaddr (strcat (gname n) ".data")))) 0 false)))
    ((vsmall w) (ADDG e n (gr (gname n) true (gwords (set0 w (+ (gaddr (gname n)) 8))) 0 false)))))
(def PVD ((n Str) (k W) (l (List W)) (s Stream) (e Env)) GRes
  (gok s (VG n (ite (bvslt k (len l)) (len l) k) l e)))
; the values up to the semicolon, after those in l
(defrec PVL ((n Str) (k W) (l (List W)) (s Stream) (e Env)) GRes
  (match (WS s) (sfail gno)
  ((sok s1) (match (IVAL s1 e) (ivno gno)
  ((ivok w s2 e2) (match (WS s2) (sfail gno)
  ((sok s3) (match s3 (seof gno) ((sbad b) gno)
  ((scons c u) (cond
    ((= c ';') (PVD n k (snoc l w) u e2))
    ((= c ',') (PVL n k (snoc l w) u e2))
    (else gno)))))))))))
(defrec PVI ((n Str) (k W) (s Stream) (e Env)) GRes
  (match (WS s) (sfail gno)
  ((sok t) (match t (seof gno) ((sbad k) gno)
  ((scons c u) (ite (= c ';') (PVD n k nil:W u e)
    (PVL n k nil:W t e)))))))
(defrec PVEC ((n Str) (s Stream) (e Env)) GRes
  (match (WS s) (sfail gno)
  ((sok t) (match t (seof gno) ((sbad k) gno)
  ((scons c u) (ite (= c (bv 8 93)) (PVI n 0 u (GREM e n))
    (match (NUMB t) (nfail gno)
    ((nok k s1) (match (WS s1) (sfail gno)
    ((sok s2) (match (XC (bv 32 93) s2) (sfail gno) ((sok s3) (PVI n k s3 (GREM e n)))))))))))))) 
(contract parseVector (l c name) (opt toplevel)
  (match (PVEC name S E)
    ((gok s e) (ret enil) (set S s) (set E e))
    (gno (fail))))
(loop parseVector (inv (PVL ?n ?k ?l S E)) (keep ?n ?k) (cell initVals (words ?l)))

; ---- a file
(def CLR ((e Env)) Env
  (upd e e_globals (emptymap Str (Opt GR)) e_funs (emptymap Str (Opt FR)) e_fp (emptymap Str (Opt (List Str)))))
(contract ClearTopLevelContext (c) (opt toplevel) (do (ret) (set E (CLR E))))
(defrec PTOP ((s Stream) (e Env) (p (List Top))) TopRes
  (match (IDENT s) (ifail tno)
  ((iok n t) (ite (= n nil:B8)
    (match t (seof (tok p t e)) ((sbad k) tno) ((scons c u) tno))
    (match (WS t) (sfail tno)
    ((sok u) (match u (seof tno) ((sbad k) tno)
    ((scons c v) (cond
      ((= c (bv 8 40)) (match (PFUN n v e) (fno tno)
        ((fyes ps st s2 e2) (PTOP s2 (CLR e2) (snoc p (tfun n ps st))))))
      ((= c '[') (match (PVEC n v e) (gno tno) ((gok s2 e2) (PTOP s2 (CLR e2) p))))
      (else (match (PGLOB n u e) (gno tno) ((gok s2 e2) (PTOP s2 (CLR e2) p))))))))))))) 
(contract ParseDeclarations (l c) (opt toplevel program)
  (match (PTOP S E nil:Top)
    ((tok p s e) (ret enil) (set S s) (set E e) (set P p))
    (tno (fail))))
(loop ParseDeclarations (inv (PTOP S E P)))

; a compiler starts with empty tables and a module of its own
(contract NewCompiler (args) (opt newcompiler inline) (do (ret)))
