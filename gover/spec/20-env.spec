; What the compiler knows while it compiles a file, and the words the program
; it generates works on.
(sort World)
(datatypes
  (FR (fr (fr_n Str) (fr_np W) (fr_va Bool)))
  (GInit (gwords (gw_l (List W))) (gzeros (gz_n W)) (gbytes (gb_s Str)))
  (GR (gr (gr_n Str) (gr_arr Bool) (gr_v GInit) (gr_link W) (gr_ro Bool)))
  (LV lnil (lword (lw_ W)) (lptr (lp W)) (lbool (lb Bool)) (lfn (lf FR)) (lglob (lg GR))
      (lfnptr (lfp_a W) (lfp_n W) (lfp_v Bool)) (li32 (l32 R)) (li8 (l8 B8)) (lptr8 (lp8 W))
      (larr (la_a W) (la_n W)) (larr8 (la8_a W) (la8_n W)))
  (Env (env (e_locals (Array Str (Opt W)))
            (e_globals (Array Str (Opt GR)))
            (e_funs (Array Str (Opt FR)))
            (e_mf (List FR))
            (e_mg (List GR))
            (e_used (Array Str Bool))
            (e_fp (Array Str (Opt (List Str))))
            (e_sid W)
            (e_nl W) ; number of local variables
            (e_def (Array Str Bool))
            (e_gotos (List Str)))))

; the memory of the running program
(fun ld ((w World) (a W)) W)
(fun wst ((w World) (a W) (v W)) World)
(fun callv ((w World) (f W) (a (List W))) W)
(fun callw ((w World) (f W) (a (List W))) World)
; addresses of functions and of external variables by their symbol
(fun faddr ((n Str)) W)
(fun gaddr ((n Str)) W)
(fun lblk ((n Str)) W)
; address of the local variable number k of the activation, and the words it has
(fun laddr ((k W)) W)
(fun awords ((a W)) W)
; text of an integer in a format
(fun fmtd ((f Str) (n W)) Str)
(fun isintr ((n Str)) Bool)
(fun strcat ((a Str) (b Str)) Str)
(fun drop_FR ((l (List FR)) (i W)) (List FR))
(fun cat_FR ((a (List FR)) (b (List FR))) (List FR))
(fun drop_GR ((l (List GR)) (i W)) (List GR))
(fun cat_GR ((a (List GR)) (b (List GR))) (List GR))
(const gprefix Str)

; symbol of a B name
(defrec gname ((n Str)) Str (ite (= n "main") n (strcat gprefix n)))

; functions the compiler knows have no parameter, or one and any number more
(def frok ((f FR)) Bool (or (= (fr_np f) 0) (and (= (fr_np f) 1) (fr_va f))))

(defrec ffindi ((l (List FR)) (i W) (n Str)) (Opt FR)
  (cond ((bvsle (len l) i) (none FR))
        ((= (fr_n (nth l i)) n) (some (nth l i)))
        (else (ffindi l (+ i 1) n))))
(def FFIND ((e Env) (n Str)) (Opt FR) (ffindi (e_mf e) 0 (gname n)))

(defrec fremi ((l (List FR)) (i W) (n Str)) (Tuple Bool (List FR))
  (cond ((bvsle (len l) i) (tuple false l))
        ((= (fr_n (nth l i)) n) (tuple true (cat_FR (take l i) (drop_FR l (+ i 1)))))
        (else (fremi l (+ i 1) n))))
(def FREM ((l (List FR)) (n Str)) (List FR) (proj 1 (fremi l 0 n)))

; address of a variable
(def GADDR ((e Env) (n Str)) (Opt W)
  (match (select (e_locals e) n)
    ((some a) (some a))
    (none (match (select (e_globals e) n)
      ((some g) (some (gaddr (gr_n g))))
      (none (none W))))))

(datatypes (DRes dnone (dsome (d_f FR) (d_e Env))))
; the function a name stands for, declared if need be
(defrec GODF ((e Env) (n Str)) DRes
  (match (select (e_funs e) n)
    ((some f) (dsome f e))
    (none (match (select (e_globals e) n)
      ((some g) dnone)
      (none (dsome (fr (gname n) 0 true)
        (upd e e_mf (snoc (FREM (e_mf e) (gname n)) (fr (gname n) 0 true))
               e_funs (store (e_funs e) n (some (fr (gname n) 0 true)))
               e_used (store (e_used e) n true))))))))

(contract globalName (c name)
  (do (ret (gname name)) (assume (not (isintr (gname name))))))

(contract findFuncByName (c name)
  (match (FFIND E name)
    ((some f) (ret (lfn f)) (ensure (frok f)))
    (none (ret nil))))
(loop findFuncByName (inv (ffindi ?l ?i ?n)) (measure (- (len ?l) ?i)) (keep ?l ?n) (side (bvsle 0 ?i)) (cell rangeindex (- ?i 1)))
(loop findFuncByName (inv (ffindi ?l ?i ?n)) (measure (- (len ?l) ?i)) (keep ?l ?n) (side (bvsle 0 ?i)) (cell i ?i))

(contract removeFuncByName (c name)
  (match (fremi (e_mf E) 0 (gname name))
    ((tuple b l) (ret b) (set E (upd E e_mf l)))))
(loop removeFuncByName (inv (fremi ?l ?i ?n)) (measure (- (len ?l) ?i)) (keep ?l ?n) (side (bvsle 0 ?i)) (cell rangeindex (- ?i 1)))
(loop removeFuncByName (inv (fremi ?l ?i ?n)) (measure (- (len ?l) ?i)) (keep ?l ?n) (side (bvsle 0 ?i)) (cell i ?i))

(contract GetAddress (c name)
  (match (GADDR E name)
    ((some a) (ret (lptr a) true))
    (none (ret nil false))))

(contract GetOrDeclareFunction (c name)
  (match (GODF E name)
    ((dsome f e) (ret (lfn f)) (set E e) (ensure (frok f)))
    (dnone (ret nil))))
