; Expressions: what is recognised, and what it means.
(datatypes
  (Expr
    (EK (k_ W))                    ; constant
    (EAdr (ad_ W))                 ; variable
    (EFnA (fa_ FR))                ; function that is called by name
    (ERv (rv_x Expr))              ; parenthesised
    (ENot (not_x Expr)) (ENeg (neg_x Expr))
    (EDeref (de_x Expr)) (EAddr (ao_x Expr))
    (EPre (pre_d W) (pre_x Expr)) (EPost (post_d W) (post_x Expr))
    (EIdx (ix_x Expr) (ix_i Expr))
    (ECall (ca_f Expr) (ca_a (List Expr)))
    (EBin (b_op B8) (b_x Expr) (b_y Expr))
    (EAsg (as_x Expr) (as_y Expr))
    (EAop (ao_op B8) (aop_x Expr) (aop_y Expr))
    (ECond (co_c Expr) (co_a Expr) (co_b Expr)))
  (PRes pfail (pok (p_x Expr) (p_s Stream) (p_e Env))))

(def b2w ((b Bool)) W (ite b 1 0))
; operators: + - * / % & | and L<< R>> < l<= > g>= e== n!=
(def opval ((o B8) (a W) (b W)) W
  (cond ((= o '+') (bvadd a b)) ((= o '-') (bvsub a b)) ((= o '*') (bvmul a b))
        ((= o '/') (bvsdiv a b)) ((= o '%') (bvsrem a b)) ((= o '&') (bvand a b))
        ((= o '|') (bvor a b)) ((= o 'L') (bvshl a b)) ((= o 'R') (bvashr a b))
        ((= o '<') (b2w (bvslt a b))) ((= o 'l') (b2w (bvsle a b)))
        ((= o '>') (b2w (bvslt b a))) ((= o 'g') (b2w (bvsle b a)))
        ((= o 'e') (b2w (= a b))) (else (b2w (not (= a b))))))

(def islv ((x Expr)) Bool (or (is-EAdr x) (is-EDeref x) (is-EIdx x) (is-EPre x)))
(def isfnx ((x Expr)) Bool (is-EFnA x))

; address of an lvalue, and the memory once it is known
(defrec addr ((x Expr) (w World)) W
  (match x
    ((EAdr a) a)
    ((EDeref y) (rv y w))
    ((EIdx y i) (bvadd (rv y w) (bvmul 8 (rv i (rw y w)))))
    ((EPre d y) (addr y w))
    (_ 0)))
(defrec lw ((x Expr) (w World)) World
  (match x
    ((EAdr a) w)
    ((EDeref y) (rw y w))
    ((EIdx y i) (rw i (rw y w)))
    ((EPre d y) (wst (lw y w) (addr y w) (bvadd (ld (lw y w) (addr y w)) d)))
    (_ w)))
; value of an expression, and the memory afterwards
(defrec rv ((x Expr) (w World)) W
  (ite (islv x) (ld (lw x w) (addr x w))
  (match x
    ((EK k) k)
    ((EFnA f) (faddr (fr_n f)))
    ((ERv y) (rv y w))
    ((ENot y) (b2w (= (rv y w) 0)))
    ((ENeg y) (bvsub 0 (rv y w)))
    ((EAddr y) (addr y w))
    ((EPost d y) (ld (lw y w) (addr y w)))
    ((ECall f a) (callv (aw a (rw f w)) (rv f w) (avals a (rw f w))))
    ((EBin o a b) (opval o (rv a w) (rv b (rw a w))))
    ((EAsg a b) (rv b (lw a w)))
    ((EAop o a b) (opval o (ld (rw b (lw a w)) (addr a w)) (rv b (lw a w))))
    ((ECond c a b) (ite (= (rv c w) 0) (rv b (rw c w)) (rv a (rw c w))))
    (_ 0))))
(defrec rw ((x Expr) (w World)) World
  (ite (islv x) (lw x w)
  (match x
    ((EK k) w)
    ((EFnA f) w)
    ((ERv y) (rw y w))
    ((ENot y) (rw y w))
    ((ENeg y) (rw y w))
    ((EAddr y) (lw y w))
    ((EPost d y) (wst (lw y w) (addr y w) (bvadd (ld (lw y w) (addr y w)) d)))
    ((ECall f a) (callw (aw a (rw f w)) (rv f w) (avals a (rw f w))))
    ((EBin o a b) (rw b (rw a w)))
    ((EAsg a b) (wst (rw b (lw a w)) (addr a w) (rv b (lw a w))))
    ((EAop o a b) (wst (rw b (lw a w)) (addr a w) (opval o (ld (rw b (lw a w)) (addr a w)) (rv b (lw a w)))))
    ((ECond c a b) (ite (= (rv c w) 0) (rw b (rw c w)) (rw a (rw c w))))
    (_ w))))
(defrec avals ((l (List Expr)) (w World)) (List W)
  (match l (nil nil:W) ((snoc p y) (snoc (avals p w) (rv y (aw p w))))))
(defrec aw ((l (List Expr)) (w World)) World
  (match l (nil w) ((snoc p y) (rw y (aw p w)))))

; what the parser holds for an operand: an address, a function, or a value
(def lvof ((x Expr) (w World)) LV
  (ite (islv x) (lptr (addr x w)) (ite (isfnx x) (lfn (fa_ x)) (lword (rv x w)))))
(def fnof ((x Expr) (w World)) LV
  (ite (isfnx x) (lfn (fa_ x)) (lword (rv x w))))
(def xw ((x Expr) (w World)) World (ite (islv x) (lw x w) (rw x w)))

(def nextis ((s Stream) (c B8)) Bool (match s ((scons d u) (= d c)) (_ false)))
(def callnext ((s Stream)) Bool (match (WS s) (sfail false) ((sok t) (nextis t (bv 8 40)))))

; a string constant is an object of its own
(def NEWSTR ((v Str) (e Env)) Env
  (upd e e_sid (+ (e_sid e) 1)
         e_mg (snoc (e_mg e) (gr (fmtd ".str.%d" (e_sid e)) true (gbytes (snoc v (bv 8 0))) 1 true))))

(defrec PE ((lev W) (s Stream) (e Env)) PRes
  (match (PU s e) (pfail pfail) ((pok x t f) (PL lev x t f))))

; binary operator o with its right operand at level r
(def PB ((lev W) (o B8) (r W) (x Expr) (s Stream) (e Env)) PRes
  (match (PE r s e) (pfail pfail) ((pok y t f) (PL lev (EBin o x y) t f))))
(def PAS ((x Expr) (s Stream) (e Env)) PRes
  (match (PE 14 s e) (pfail pfail) ((pok y t f) (pok (EAsg x y) t f))))
(def PAO ((o B8) (x Expr) (s Stream) (e Env)) PRes
  (match (PE 14 s e) (pfail pfail) ((pok y t f) (pok (EAop o x y) t f))))

(defrec PL ((lev W) (x Expr) (s Stream) (e Env)) PRes
  (match (WS s) (sfail pfail)
  ((sok t) (match t
    (seof (pok x t e))
    ((sbad k) pfail)
    ((scons c u) (cond
      ((= c '?')
        (ite (bvsge lev 13)
          (match (PE 15 u e) (pfail pfail)
          ((pok a s1 e1) (match (WS s1) (sfail pfail)
          ((sok s2) (match (XC (bv 32 58) s2) (sfail pfail)
          ((sok s3) (match (PE 13 s3 e1) (pfail pfail)
          ((pok b s4 e2) (pok (ECond x a b) s4 e2)))))))))
          (pok x t e)))
      ((= c '=') (cond
        ((bvslt lev 7) (pok x t e))
        ((and (nextis u '=') (not (nextis (stl u) '='))) (PB lev 'e' 6 x (stl u) e))
        ((bvslt lev 14) (pok x t e))
        ((not (islv x)) pfail)
        (else (match u
          ((scons d v) (cond
            ((= d '=') (PAO 'e' x (stl v) e))
            ((in d '+' '-' '*' '/' '%' '&' '|') (PAO d x v e))
            ((= d '<') (cond ((nextis v '<') (PAO 'L' x (stl v) e))
                             ((nextis v '=') (PAO 'l' x (stl v) e))
                             (else (PAO '<' x v e))))
            ((= d '>') (cond ((nextis v '>') (PAO 'R' x (stl v) e))
                             ((nextis v '=') (PAO 'g' x (stl v) e))
                             (else (PAO '>' x v e))))
            ((and (= d '!') (nextis v '=')) (PAO 'n' x (stl v) e))
            (else (PAS x u e))))
          (_ (PAS x u e))))))
      ((= c '|') (ite (bvsge lev 10) (PB lev '|' 9 x u e) (pok x t e)))
      ((= c '&') (ite (bvsge lev 8) (PB lev '&' 7 x u e) (pok x t e)))
      ((= c '!') (cond ((bvslt lev 7) (pok x t e))
                       ((nextis u '=') (PB lev 'n' 6 x (stl u) e))
                       (else pfail)))
      ((= c '<') (cond ((bvslt lev 5) (pok x t e))
                       ((nextis u '<') (PB lev 'L' 4 x (stl u) e))
                       ((bvslt lev 6) (pok x t e))
                       ((nextis u '=') (PB lev 'l' 5 x (stl u) e))
                       (else (PB lev '<' 5 x u e))))
      ((= c '>') (cond ((bvslt lev 5) (pok x t e))
                       ((nextis u '>') (PB lev 'R' 4 x (stl u) e))
                       ((bvslt lev 6) (pok x t e))
                       ((nextis u '=') (PB lev 'g' 5 x (stl u) e))
                       (else (PB lev '>' 5 x u e))))
      ((or (= c '+') (= c '-'))
        (cond ((bvslt lev 4) (pok x t e))
              ((nextis u c) (pok x t e))
              (else (PB lev c 3 x u e))))
      ((in c '*' '/' '%') (ite (bvsge lev 3) (PB lev c 2 x u e) (pok x t e)))
      (else (pok x t e))))))))

(defrec PU ((s Stream) (e Env)) PRes
  (match (WS s) (sfail pfail)
  ((sok t) (match t
    (seof pfail)
    ((sbad k) pfail)
    ((scons c u) (cond
      ((= c '!') (match (PU u e) (pfail pfail) ((pok y v f) (pok (ENot y) v f))))
      ((= c '-')
        (ite (nextis u '-')
          (match (PU (stl u) e) (pfail pfail) ((pok y v f) (ite (islv y) (pok (EPre -1 y) v f) pfail)))
          (match (PU u e) (pfail pfail) ((pok y v f) (pok (ENeg y) v f)))))
      ((= c '+')
        (ite (nextis u '+')
          (match (PU (stl u) e) (pfail pfail) ((pok y v f) (ite (islv y) (pok (EPre 1 y) v f) pfail)))
          pfail))
      ((= c '*') (match (PU u e) (pfail pfail) ((pok y v f) (pok (EDeref y) v f))))
      ((= c '&') (match (PU u e) (pfail pfail) ((pok y v f) (ite (islv y) (pok (EAddr y) v f) pfail))))
      (else (PX t e))))))))
(defrec PX ((s Stream) (e Env)) PRes
  (match (PP s e) (pfail pfail) ((pok x t f) (PF x t f))))

(defrec PF ((x Expr) (s Stream) (e Env)) PRes
  (match (WS s) (sfail pfail)
  ((sok t) (match t
    (seof (pok x t e))
    ((sbad k) pfail)
    ((scons c u) (cond
      ((= c '[') (match (PE 15 u e) (pfail pfail)
                 ((pok i v f) (match (XC (bv 32 93) v) (sfail pfail) ((sok s2) (PF (EIdx x i) s2 f))))))
      ((= c (bv 8 40)) (PA x nil:Expr u e))
      ((= c '+') (ite (nextis u '+') (ite (islv x) (PF (EPost 1 x) (stl u) e) pfail) (pok x t e)))
      ((= c '-') (ite (nextis u '-') (ite (islv x) (PF (EPost -1 x) (stl u) e) pfail) (pok x t e)))
      (else (pok x t e))))))))

; arguments of a call of f after those in a
(defrec PA ((f Expr) (a (List Expr)) (s Stream) (e Env)) PRes
  (match (WS s) (sfail pfail)
  ((sok t) (match t
    (seof pfail)
    ((sbad k) pfail)
    ((scons c u)
      (ite (and (= c (bv 8 41)) (is-nil a)) (PF (ECall f a) u e)
      (match (PE 15 t e) (pfail pfail)
      ((pok y s1 e1) (match (WS s1) (sfail pfail)
      ((sok s2) (match s2
        (seof pfail)
        ((sbad k) pfail)
        ((scons d v) (cond
          ((= d (bv 8 41)) (PF (ECall f (snoc a y)) v e1))
          ((= d ',') (PA f (snoc a y) v e1))
          (else pfail)))))))))))))
)
(defrec PP ((s Stream) (e Env)) PRes
  (match (WS s) (sfail pfail)
  ((sok t) (match t
    (seof pfail)
    ((sbad k) pfail)
    ((scons c u) (cond
      ((= c (bv 8 39)) (match (CHR 0 0 u) (nfail pfail) ((nok v s1) (pok (EK v) s1 e))))
      ((= c (bv 8 34)) (match (STR nil:B8 u) (ifail pfail)
          ((iok v s1) (pok (EK (gaddr (fmtd ".str.%d" (e_sid e)))) s1 (NEWSTR v e)))))
      ((= c (bv 8 40)) (match (PE 15 u e) (pfail pfail)
          ((pok x s1 e1) (match (XC (bv 32 41) s1) (sfail pfail) ((sok s2) (pok (ERv x) s2 e1))))))
      ((isdigit c) (match (NUMB t) (nfail pfail) ((nok v s1) (pok (EK v) s1 e))))
      ((isletter c) (match (IDENT t) (ifail pfail)
          ((iok n s1) (match (WS s1) (sfail pfail) ((sok s2) (PID n s2 e))))))
      (else pfail)))))))
(defrec PID ((n Str) (s Stream) (e Env)) PRes
  (ite (nextis s (bv 8 40))
    (match (select (e_locals e) n)
      ((some a) (pok (EAdr a) s e))
      (none (match (FFIND e n)
        ((some f) (pok (EFnA f) s e))
        (none (match (GADDR e n)
          ((some a) (pok (EAdr a) s e))
          (none (match (GODF e n) (dnone pfail) ((dsome f e1) (pok (EFnA f) s e1)))))))))
    (match (GADDR e n)
      ((some a) (pok (EAdr a) s e))
      (none (match (WS s) (sfail pfail)
      ((sok t) (ite (nextis t '=') pfail
        (match (FFIND e n)
          ((some f) (pok (EK (faddr (fr_n f))) t e))
          (none (match (GODF e n) (dnone pfail) ((dsome f e1) (pok (EK (faddr (fr_n f))) t e1))))))))))))

; the bytes of a string are copied one by one
(datatypes (CRes (cdone (cd_ Str))))
(defrec CPY ((s Str) (i W)) CRes (ite (bvsle (len s) i) (cdone s) (CPY s (+ i 1))))
(loop CreateStringConstant (inv (CPY ?s ?i)) (measure (- (len ?s) ?i)) (keep ?s) (cell rangeindex (- ?i 1)) (cell bytes (wrap li8 (take ?s ?i)))
  (side (and (bvsle 0 ?i) (bvsle ?i (len ?s)))))
(contract CreateStringConstant (c str) (guide (CPY (snoc str (bv 8 0)) 0))
  (do (ret (lglob (gr (fmtd ".str.%d" (e_sid E)) true (gbytes (snoc str (bv 8 0))) 1 true)))
      (set E (NEWSTR str E))))

(contract parseExpression (l c)
  (match (PE 15 S E)
    ((pok x s e) (ret (lword (rv x W)) enil) (set S s) (set E e) (set W (rw x W)))
    (pfail (fail))))

(contract parseExpressionWithLevel (l c level)
  (match (PE level S E)
    ((pok x s e) (ret (lword (rv x W)) enil) (set S s) (set E e) (set W (rw x W)))
    (pfail (fail))))
(loop parseExpressionWithLevel (inv (PL ?lev ?x S E))
  (cell left (lvof ?x W)) (cell isLvalue (islv ?x)) (cell level ?lev) (world (xw ?x W)) (side (not (isfnx ?x))))

(contract parseUnary (l c)
  (match (PU S E)
    ((pok x s e) (ret (lvof x W) (islv x) enil) (set S s) (set E e) (set W (xw x W)) (ensure (not (isfnx x))))
    (pfail (fail))))

(contract parsePostfix (l c)
  (match (PX S E)
    ((pok x s e) (ret (lvof x W) (islv x) enil) (set S s) (set E e) (set W (xw x W)) (ensure (not (isfnx x))))
    (pfail (fail))))
(loop parsePostfix (inv (PF ?x S E))
  (cell val (lvof ?x W)) (cell isLvalue (islv ?x)) (world (xw ?x W))
  (side (=> (isfnx ?x) (and (callnext S) (frok (fa_ ?x))))))
(loop parsePostfix (inv (PA ?f ?a S E)) (flag (is-nil ?a)) (term (bvult (slen S) (slen S0)))
  (cell args (words (avals ?a (rw ?f W)))) (cell fn (fnof ?f W)) (world (aw ?a (rw ?f W)))
  (side (=> (isfnx ?f) (frok (fa_ ?f)))) (side (= (is-nil ?a) (is-nil (avals ?a (rw ?f W))))))

(contract parsePrimary (l c)
  (match (PP S E)
    ((pok x s e) (ret (lvof x W) (islv x) enil) (set S s) (set E e) (set W (xw x W))
      (ensure (=> (isfnx x) (and (callnext s) (frok (fa_ x))))))
    (pfail (fail))))
