; The driver: which files are made, which commands are run, what is removed.
; T lists what has been done so far, N counts the operations whose outcome the
; environment decides.
(datatypes
  (Act (amade (am_s Str) (am_f Str)) (acreate (ac_f Str)) (arun (ar_l (List Str))) (arm (rm_f Str)))
  (BRes (dok (dk_t (List Act)) (dk_n W)) (dbad (db_t (List Act))))
  (MRes (mexit (mx_c W) (mx_t (List Act)))))

(fun cat_L_bv8 ((a (List Str)) (b (List Str))) (List Str))
(def CATS ((a (List Str)) (b (List Str))) (List Str) (ite (= a nil:Str) b (cat_L_bv8 a b)))
(fun fext ((f Str)) Str)
(fun fbase ((f Str)) Str)
(fun ftrim ((f Str) (x Str)) Str)
(fun fjoin ((f Str) (x Str)) Str)
; the outcome of the operations of the environment
(fun okopen ((n W) (f Str)) Bool)
(fun okparse ((n W)) Bool)
(fun okcreate ((n W)) Bool)
(fun okwrite ((n W)) Bool)
(fun okclose ((n W)) Bool)
(fun okrun ((n W)) Bool)
(fun okstat ((f Str)) Bool)
(fun isdir ((f Str)) Bool)
(fun getenv ((f Str)) Str)
; the command line
(fun osargs ((n W)) (List Str))
(fun pargs ((n W)) (List Str))
(fun fstr ((l Str) (s Str) (d Str)) Str)
(fun fbool ((l Str) (s Str) (d Bool)) Bool)
(fun flist ((l Str) (s Str)) (List Str))

(def STEM ((f Str)) Str (ftrim (fbase f) (fext (fbase f))))

; ---- intermediate code
(defrec IR1 ((f Str) (o Str) (t (List Act)) (n W)) BRes
  (cond ((not (okopen n f)) (dbad t))
        ((not (okparse (+ n 1))) (dbad t))
        ((not (okcreate (+ n 2))) (dbad t))
        ((not (okwrite (+ n 3))) (dbad (snoc t (acreate o))))
        ((not (okclose (+ n 4))) (dbad (snoc (snoc t (acreate o)) (amade f o))))
        (else (dok (snoc (snoc t (acreate o)) (amade f o)) (+ n 5)))))
(defrec IRALL ((l (List Str)) (i W) (t (List Act)) (n W)) BRes
  (ite (bvsle (len l) i) (dok t n)
    (match (IR1 (nth l i) (strcat (STEM (nth l i)) ".ll") t n)
      ((dbad u) (dbad u))
      ((dok u m) (IRALL l (+ i 1) u m)))))
(defrec IRCHK ((l (List Str)) (i W) (o Str) (t (List Act)) (n W)) BRes
  (cond ((bvsle (len l) i) (cond ((= o "") (IRALL l 0 t n))
                                 ((= (len l) 1) (IR1 (nth l 0) o t n))
                                 (else (dbad t))))
        ((not (= (fext (nth l i)) ".b")) (dbad t))
        (else (IRCHK l (+ i 1) o t n))))
(contract compileToIR (args) (opt driver)
  (requires (= args.WordSize 8))
  (requires (= args.GlobalPrefix "b."))
  (match (IRCHK args.InputFiles 0 args.OutputFile T N)
    ((dok t n) (ret enil) (set T t) (set N n))
    ((dbad t) (fail) (set T t))))
(loop compileToIR (inv (IRCHK ?l ?i ?o T N)) (measure (- (len ?l) ?i)) (keep ?l ?o) (side (bvsle 0 ?i)) (cell rangeindex (- ?i 1)))
(loop compileToIR (inv (IRALL ?l ?i T N)) (measure (- (len ?l) ?i)) (keep ?l) (side (bvsle 0 ?i)) (cell rangeindex (- ?i 1)))
(loop compileToIR (inv (IRCHK ?l ?i ?o T N)) (measure (- (len ?l) ?i)) (keep ?l ?o) (side (bvsle 0 ?i)) (cell i ?i))
(loop compileToIR (inv (IRALL ?l ?i T N)) (measure (- (len ?l) ?i)) (keep ?l) (side (bvsle 0 ?i)) (cell i ?i))

; ---- the backend
(def OPTS ((o W) (g Bool)) (List Str)
  (let ((a (ite (bvslt 0 o) (snoc nil:Str (strcat "-O" (fmtd "%d" o))) nil:Str)))
    (ite g (snoc a "-g") a)))
(def UCMD ((k Str) (f Str) (out Str) (o W) (g Bool)) (List Str)
  (snoc (snoc (snoc (snoc (OPTS o g) k) "-o") out) f))
(def TMP ((out Str)) Str (strcat out ".tmp.ll"))
; one output of one input; k is -S or -c
(def U1 ((k Str) (f Str) (out Str) (o W) (g Bool) (sv Bool) (t (List Act)) (n W)) BRes
  (ite (= (fext f) ".b")
    (match (IRCHK (snoc nil:Str f) 0 (TMP out) t n)
      ((dbad u) (dbad u))
      ((dok u m) (let ((v (snoc u (arun (UCMD k (TMP out) out o g)))))
        (let ((w (ite sv v (snoc v (arm (TMP out))))))
          (ite (okrun m) (dok w (+ m 1)) (dbad w))))))
    (let ((v (snoc t (arun (UCMD k f out o g)))))
      (ite (okrun n) (dok v (+ n 1)) (dbad v)))))
(defrec UALL ((k Str) (x Str) (l (List Str)) (i W) (o W) (g Bool) (sv Bool) (t (List Act)) (n W)) BRes
  (ite (bvsle (len l) i) (dok t n)
    (match (U1 k (nth l i) (strcat (STEM (nth l i)) x) o g sv t n)
      ((dbad u) (dbad u))
      ((dok u m) (UALL k x l (+ i 1) o g sv u m)))))
(def UEXT ((k Str) (e Str)) Bool
  (or (= e ".b") (= e ".ll") (and (= k "-c") (= e ".s"))))
(defrec UCHK ((k Str) (x Str) (l (List Str)) (i W) (out Str) (o W) (g Bool) (sv Bool) (t (List Act)) (n W)) BRes
  (cond ((bvsle (len l) i) (cond ((= out "") (UALL k x l 0 o g sv t n))
                                 ((= (len l) 1) (U1 k (nth l 0) out o g sv t n))
                                 (else (dbad t))))
        ((not (UEXT k (fext (nth l i)))) (dbad t))
        (else (UCHK k x l (+ i 1) out o g sv t n))))
(contract compileToAssembly (args) (opt driver)
  (requires (= args.WordSize 8))
  (requires (= args.GlobalPrefix "b."))
  (match (UCHK "-S" ".s" args.InputFiles 0 args.OutputFile args.Optimize args.DebugInfo args.SaveTemps T N)
    ((dok t n) (ret enil) (set T t) (set N n))
    ((dbad t) (fail) (set T t))))
(contract compileToObject (args) (opt driver)
  (requires (= args.WordSize 8))
  (requires (= args.GlobalPrefix "b."))
  (match (UCHK "-c" ".o" args.InputFiles 0 args.OutputFile args.Optimize args.DebugInfo args.SaveTemps T N)
    ((dok t n) (ret enil) (set T t) (set N n))
    ((dbad t) (fail) (set T t))))
(loop compileToAssembly (inv (UCHK ?k ?x ?l ?i ?out ?o ?g ?sv T N)) (measure (- (len ?l) ?i)) (keep ?k ?x ?l ?out ?o ?g ?sv) (side (bvsle 0 ?i)) (cell rangeindex (- ?i 1)))
(loop compileToAssembly (inv (UALL ?k ?x ?l ?i ?o ?g ?sv T N)) (measure (- (len ?l) ?i)) (keep ?k ?x ?l ?o ?g ?sv) (side (bvsle 0 ?i)) (cell rangeindex (- ?i 1)))
(loop compileToAssembly (inv (UCHK ?k ?x ?l ?i ?out ?o ?g ?sv T N)) (measure (- (len ?l) ?i)) (keep ?k ?x ?l ?out ?o ?g ?sv) (side (bvsle 0 ?i)) (cell i ?i))
(loop compileToAssembly (inv (UALL ?k ?x ?l ?i ?o ?g ?sv T N)) (measure (- (len ?l) ?i)) (keep ?k ?x ?l ?o ?g ?sv) (side (bvsle 0 ?i)) (cell i ?i))
(loop compileToObject (inv (UCHK ?k ?x ?l ?i ?out ?o ?g ?sv T N)) (measure (- (len ?l) ?i)) (keep ?k ?x ?l ?out ?o ?g ?sv) (side (bvsle 0 ?i)) (cell rangeindex (- ?i 1)))
(loop compileToObject (inv (UALL ?k ?x ?l ?i ?o ?g ?sv T N)) (measure (- (len ?l) ?i)) (keep ?k ?x ?l ?o ?g ?sv) (side (bvsle 0 ?i)) (cell rangeindex (- ?i 1)))
(loop compileToObject (inv (UCHK ?k ?x ?l ?i ?out ?o ?g ?sv T N)) (measure (- (len ?l) ?i)) (keep ?k ?x ?l ?out ?o ?g ?sv) (side (bvsle 0 ?i)) (cell i ?i))
(loop compileToObject (inv (UALL ?k ?x ?l ?i ?o ?g ?sv T N)) (measure (- (len ?l) ?i)) (keep ?k ?x ?l ?o ?g ?sv) (side (bvsle 0 ?i)) (cell i ?i))

; ---- an executable
; the intermediates have been removed
(defrec RML ((l (List Str)) (i W) (ok Bool) (t (List Act)) (n W)) BRes
  (ite (bvsle (len l) i) (ite ok (dok t n) (dbad t))
    (RML l (+ i 1) ok (snoc t (arm (nth l i))) n)))
(def XEND ((sv Bool) (tm (List Str)) (ok Bool) (t (List Act)) (n W)) BRes
  (ite sv (ite ok (dok t n) (dbad t)) (RML tm 0 ok t n)))
(def XRUN ((a (List Str)) (tm (List Str)) (sv Bool) (t (List Act)) (n W)) BRes
  (XEND sv tm (okrun n) (snoc t (arun a)) (+ n 1)))
(defrec LLIB ((l (List Str)) (i W) (a (List Str)) (out Str) (tm (List Str)) (sv Bool) (t (List Act)) (n W)) BRes
  (ite (bvsle (len l) i) (XRUN (snoc (snoc a "-o") out) tm sv t n)
    (LLIB l (+ i 1) (snoc a (strcat "-l" (nth l i))) out tm sv t n)))
(defrec LDIR ((d (List Str)) (i W) (a (List Str)) (l (List Str)) (out Str) (tm (List Str)) (sv Bool) (t (List Act)) (n W)) BRes
  (ite (bvsle (len d) i) (LLIB l 0 (snoc a "-lb") out tm sv t n)
    (LDIR d (+ i 1) (snoc a (strcat "-L" (nth d i))) l out tm sv t n)))
(def XLNK ((ci (List Str)) (o W) (g Bool) (d (List Str)) (l (List Str)) (out Str) (tm (List Str)) (sv Bool) (t (List Act)) (n W)) BRes
  (LDIR d 0 (snoc (snoc (CATS (OPTS o g) ci) "-static") "-nostdlib") l out tm sv t n))
(def XTMP ((f Str) (k W) (i W) (out Str)) Str
  (ite (and (= k 1) (not (= out ""))) (TMP out)
    (strcat (strcat (strcat (ftrim (fbase f) ".b") ".tmp.") (fmtd "%d" i)) ".ll")))
(defrec XIN ((f (List Str)) (i W) (tm (List Str)) (ci (List Str)) (o W) (g Bool) (d (List Str)) (l (List Str)) (out Str) (sv Bool) (t (List Act)) (n W)) BRes
  (cond ((bvsle (len f) i) (XLNK ci o g d l out tm sv t n))
        ((= (fext (nth f i)) ".b")
          (let ((w (XTMP (nth f i) (len f) i out)))
            (match (IRCHK (snoc nil:Str (nth f i)) 0 w t n)
              ((dbad u) (XEND sv tm false u 0))
              ((dok u m) (XIN f (+ i 1) (snoc tm w) (snoc ci w) o g d l out sv u m)))))
        ((or (= (fext (nth f i)) ".ll") (= (fext (nth f i)) ".s") (= (fext (nth f i)) ".o") (= (fext (nth f i)) ".a"))
          (XIN f (+ i 1) tm (snoc ci (nth f i)) o g d l out sv t n))
        (else (dbad t))))
(def XOUT ((f (List Str)) (out Str)) Str (ite (= out "") (STEM (nth f 0)) out))
(contract compileToExecutable (args) (opt driver)
  (requires (= args.WordSize 8))
  (requires (= args.GlobalPrefix "b."))
  (requires (bvslt 0 (len args.InputFiles)))
  (match (XIN args.InputFiles 0 nil:Str nil:Str args.Optimize args.DebugInfo args.LibraryDirs args.Libraries (XOUT args.InputFiles args.OutputFile) args.SaveTemps T N)
    ((dok t n) (ret enil) (set T t) (set N n) (havoc args.OutputFile))
    ((dbad t) (fail) (set T t) (havoc args.OutputFile))))
(loop compileToExecutable (inv (XIN ?f ?i ?tm ?ci ?o ?g ?d ?l ?out ?sv T N)) (measure (- (len ?f) ?i)) (keep ?f ?o ?g ?d ?l ?out ?sv) (side (bvsle 0 ?i)) (cell rangeindex (- ?i 1)) (cell temps ?tm) (cell clangInputs ?ci))
(loop compileToExecutable (inv (XIN ?f ?i ?tm ?ci ?o ?g ?d ?l ?out ?sv T N)) (measure (- (len ?f) ?i)) (keep ?f ?o ?g ?d ?l ?out ?sv) (side (bvsle 0 ?i)) (cell i ?i) (cell temps ?tm) (cell clangInputs ?ci))
(loop compileToExecutable (inv (LDIR ?d ?i ?a ?l ?out ?tm ?sv T N)) (measure (- (len ?d) ?i)) (keep ?d ?l ?out ?tm ?sv) (side (bvsle 0 ?i)) (cell rangeindex (- ?i 1)) (cell cmdArgs ?a))
(loop compileToExecutable (inv (LDIR ?d ?i ?a ?l ?out ?tm ?sv T N)) (measure (- (len ?d) ?i)) (keep ?d ?l ?out ?tm ?sv) (side (bvsle 0 ?i)) (cell i ?i) (cell cmdArgs ?a))
(loop compileToExecutable (inv (LLIB ?l ?i ?a ?out ?tm ?sv T N)) (measure (- (len ?l) ?i)) (keep ?l ?out ?tm ?sv) (side (bvsle 0 ?i)) (cell rangeindex (- ?i 1)) (cell cmdArgs ?a))
(loop compileToExecutable (inv (LLIB ?l ?i ?a ?out ?tm ?sv T N)) (measure (- (len ?l) ?i)) (keep ?l ?out ?tm ?sv) (side (bvsle 0 ?i)) (cell i ?i) (cell cmdArgs ?a))
(loop compileToExecutable (inv (RML ?l ?i ?ok T ?n)) (measure (- (len ?l) ?i)) (keep ?l ?ok ?n) (side (bvsle 0 ?i)) (side (or (not ?ok) (= N ?n))) (cell rangeindex (- ?i 1)))
(loop compileToExecutable (inv (RML ?l ?i ?ok T ?n)) (measure (- (len ?l) ?i)) (keep ?l ?ok ?n) (side (bvsle 0 ?i)) (side (or (not ?ok) (= N ?n))) (cell i ?i))

; ---- by kind of output
(defrec CMP ((ot W) (f (List Str)) (out Str) (o W) (g Bool) (d (List Str)) (l (List Str)) (sv Bool) (t (List Act)) (n W)) BRes
  (cond ((= ot OutputIR) (IRCHK f 0 out t n))
        ((= ot OutputAssembly) (UCHK "-S" ".s" f 0 out o g sv t n))
        ((= ot OutputObject) (UCHK "-c" ".o" f 0 out o g sv t n))
        ((= ot OutputExecutable) (XIN f 0 nil:Str nil:Str o g d l (XOUT f out) sv t n))
        (else (dbad t))))
(contract Compile (args) (opt driver)
  (requires (= args.WordSize 8))
  (requires (= args.GlobalPrefix "b."))
  (requires (bvslt 0 (len args.InputFiles)))
  (match (CMP args.OutputType args.InputFiles args.OutputFile args.Optimize args.DebugInfo args.LibraryDirs args.Libraries args.SaveTemps T N)
    ((dok t n) (ret enil) (set T t) (set N n) (havoc args.OutputFile))
    ((dbad t) (fail) (set T t) (havoc args.OutputFile))))

; ---- the command line
(def ODIR ((l (List Str)) (p Str)) (List Str) (ite (and (okstat p) (isdir p)) (snoc l p) l))
(def DIRS () (List Str)
  (let ((h (ite (= (getenv "HOME") "") nil:Str (ODIR nil:Str (fjoin (getenv "HOME") ".local/lib")))))
    (ODIR (ODIR (ODIR (ODIR h "/opt/homebrew/lib") "/opt/local/lib") "/usr/local/lib") "/usr/lib")))
(def OTYPE () W
  (cond ((fbool "assemble" "S" false) OutputAssembly)
        ((fbool "compile" "c" false) OutputObject)
        ((fbool "emit-llvm" "" false) OutputIR)
        (else OutputExecutable)))
(def MEND ((r BRes)) MRes (match r ((dok t n) (mexit 0 t)) ((dbad t) (mexit 1 t))))
(defrec FCHK ((l (List Str)) (i W) (ot W) (o W) (t (List Act)) (n W)) MRes
  (cond ((bvsle (len l) i)
          (MEND (CMP ot l (fstr "output" "o" "") o (fbool "debug" "g" false)
                (CATS DIRS (flist "library-dir" "L")) (flist "library" "l") (fbool "save-temps" "" false) t n)))
        ((not (in (fext (nth l i)) ".b" ".ll" ".s" ".o" ".a")) (mexit 1 t))
        ((not (okstat (nth l i))) (mexit 1 t))
        (else (FCHK l (+ i 1) ot o t n))))
(def MAIN ((t (List Act)) (n W)) MRes
  (cond ((fbool "help" "h" false) (mexit 0 t))
        ((fbool "version" "V" false) (mexit 0 t))
        ((= (len (osargs 0)) 1) (mexit 1 t))
        ((= (len (pargs 0)) 0) (mexit 1 t))
        (else (let ((z (fstr "optimize" "O" "0")))
          (cond ((= z "0") (FCHK (pargs 0) 0 OTYPE 0 t n))
                ((= z "1") (FCHK (pargs 0) 0 OTYPE 1 t n))
                ((= z "2") (FCHK (pargs 0) 0 OTYPE 2 t n))
                ((= z "3") (FCHK (pargs 0) 0 OTYPE 3 t n))
                (else (mexit 1 t)))))))
(contract main () (opt driver main)
  (match (MAIN T N)
    ((mexit c t) (set T t) (set X c))))
(loop main (join) (inv (FCHK ?l ?i ?ot ?o T N)) (measure (- (len ?l) ?i)) (keep ?l) (side (bvsle 0 ?i)) (side (bvslt 0 (len ?l))) (side (= ?l (pargs 0))) (cell rangeindex (- ?i 1)) (cell outputType ?ot) (cell optLevel ?o))
(loop main (join) (inv (FCHK ?l ?i ?ot ?o T N)) (measure (- (len ?l) ?i)) (keep ?l) (side (bvsle 0 ?i)) (side (bvslt 0 (len ?l))) (side (= ?l (pargs 0))) (cell i ?i) (cell outputType ?ot) (cell optLevel ?o))
