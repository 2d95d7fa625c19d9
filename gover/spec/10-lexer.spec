; The source text and its tokens.
(datatypes
  (Err enil eeof (eerr (ek W)))
  (Stream seof (sbad (sk W)) (scons (sc B8) (stl Stream)))
  (SRes sfail (sok (sok_s Stream)))
  (IRes ifail (iok (iok_v Str) (iok_s Stream)))
  (NRes nfail (nok (nok_v W) (nok_s Stream)))
  (EscRes efail (eok (eok_c B8) (eok_s Stream))))

; the bytes that are left
(fun slen ((s Stream)) W)
(fun int_slen ((s Stream)) Int)
(def isid ((c B8)) Bool (or (isletter c) (isdigit c) (= c '_')))

; bytes pushed back come before those still to be read
(defrec BS ((b Str) (r Stream)) Stream
  (match b (nil r) ((snoc p x) (scons x (BS p r)))))

(defrec COM ((s Stream)) SRes
  (match s
    (seof sfail)
    ((sbad k) sfail)
    ((scons c t)
      (ite (= c '*')
        (match t
          (seof sfail)
          ((sbad k) sfail)
          ((scons d u) (ite (= d '/') (sok u) (COM t))))
        (COM t)))))

(defrec WS ((s Stream)) SRes
  (match s
    (seof (sok s))
    ((sbad k) sfail)
    ((scons c t)
      (cond
        ((isspace c) (WS t))
        ((= c '/')
          (match t
            (seof (sok s))
            ((sbad k) sfail)
            ((scons d u)
              (ite (= d '*')
                (match (COM u) (sfail sfail) ((sok v) (WS v)))
                (sok s)))))
        (else (sok s))))))

(defrec IDN ((acc Str) (s Stream)) IRes
  (match s
    (seof (iok acc s))
    ((sbad k) ifail)
    ((scons c t)
      (ite (or (isletter c) (isdigit c) (= c '_')) (IDN (snoc acc c) t) (iok acc s)))))

(defrec IDENT ((s Stream)) IRes
  (match (WS s) (sfail ifail) ((sok t) (IDN nil:B8 t))))

(defrec DIG ((base W) (num W) (s Stream)) NRes
  (match s
    (seof (nok num s))
    ((sbad k) nfail)
    ((scons c t)
      (ite (isdigit c) (DIG base (+ (* num base) (- (zext 64 c) 48)) t) (nok num s)))))

(defrec NUMB ((s Stream)) NRes
  (match (WS s)
    (sfail nfail)
    ((sok t)
      (match t
        (seof nfail)
        ((sbad k) nfail)
        ((scons c u)
          (ite (isdigit c) (DIG (ite (= c '0') 8 10) (- (zext 64 c) 48) u) nfail))))))

(defrec ESC ((s Stream)) EscRes
  (match s
    (seof efail)
    ((sbad k) efail)
    ((scons c t)
      (cond
        ((or (= c '0') (= c 'e')) (eok (bv 8 0) t))
        ((or (= c '*') (= c (bv 8 39)) (= c (bv 8 34))) (eok c t))
        ((= c (bv 8 40)) (eok (bv 8 123) t))
        ((= c (bv 8 41)) (eok (bv 8 125) t))
        ((= c 't') (eok (bv 8 9) t))
        ((= c 'n') (eok (bv 8 10) t))
        ((= c 'r') (eok (bv 8 13) t))
        (else efail)))))

(defrec CHR ((i W) (v W) (s Stream)) NRes
  (match s
    (seof nfail)
    ((sbad k) nfail)
    ((scons c t)
      (cond
        ((= c (bv 8 39)) (nok v t))
        ((bvsge i 8) nfail)
        ((= c '*')
          (match (ESC t)
            (efail nfail)
            ((eok e u) (CHR (+ i 1) (bvor (bvshl v 8) (zext 64 e)) u))))
        (else (CHR (+ i 1) (bvor (bvshl v 8) (zext 64 c)) t))))))

(defrec STR ((acc Str) (s Stream)) IRes
  (match s
    (seof ifail)
    ((sbad k) ifail)
    ((scons c t)
      (cond
        ((= c (bv 8 34)) (iok acc t))
        ((= c '*')
          (match (ESC t)
            (efail ifail)
            ((eok e u) (STR (snoc acc e) u))))
        (else (STR (snoc acc c) t))))))

(defrec XC ((want R) (s Stream)) SRes
  (match s
    (seof sfail)
    ((sbad k) sfail)
    ((scons c t) (ite (= (zext 32 c) want) (sok t) sfail))))

(contract ReadRune (r) (opt reader)
  (match R
    (seof (ret (bv 32 0) * eeof))
    ((sbad k) (ret * * (eerr k)))
    ((scons c t) (ret (zext 32 c) * enil) (set R t))))

(contract NewLexer (args reader) (opt reader)
  (do (ret (lexer))))

(contract ReadChar (l) (opt concrete)
  (match S
    (seof (ret (bv 32 0) eeof))
    ((sbad k) (ret * (eerr k)))
    ((scons c t) (ret (zext 32 c) enil) (set S t))))

(contract UnreadChar (l c) (opt concrete)
  (requires (= c (zext 32 (trunc 8 c))))
  (do (set S (scons (trunc 8 c) S))))

(contract Comment (l)
  (match (COM S)
    ((sok s) (ret enil) (set S s))
    (sfail (fail noeof))))
(loop Comment (inv (COM S)))

(contract Whitespace (l)
  (match (WS S)
    ((sok s) (ret enil) (set S s) (term (or (= s S) (bvult (slen s) (slen S)))))
    (sfail (fail noeof))))
(loop Whitespace (inv (WS S)) (term (or (= S S0) (bvult (slen S) (slen S0)))))

(contract Identifier (l)
  (match (IDENT S)
    ((iok v s) (ret v enil) (set S s)
      (term (bvule (+ (slen s) (len v)) (slen S))) (term (not (and (is-scons s) (isid (sc s))))))
    (ifail (fail noeof))))
(loop Identifier (inv (IDN ?acc S)) (cell result ?acc) (term (bvule (+ (slen S) (len ?acc)) (slen S0))))

(contract Number (l)
  (match (NUMB S)
    ((nok v s) (ret v enil) (set S s) (term (bvult (slen s) (slen S))))
    (nfail (fail))))
(loop Number (inv (DIG ?b ?n (scons ?c S))) (term (bvult (+ (slen S) 1) (slen S0))) (cell num ?n) (cell base ?b) (cell c (zext 32 ?c)))

(contract Escape (l)
  (match (ESC S)
    ((eok c s) (ret (zext 32 c) enil) (set S s))
    (efail (fail))))

(contract Character (l)
  (match (CHR 0 0 S)
    ((nok v s) (ret v enil) (set S s))
    (nfail (fail))))
(loop Character (inv (CHR ?i ?v S)) (cell i ?i) (cell value ?v) (side (and (bvsle 0 ?i) (bvsle ?i 8))))

(contract String (l)
  (match (STR nil:B8 S)
    ((iok v s) (ret v enil) (set S s))
    (ifail (fail))))
(loop String (inv (STR ?acc S)) (cell result ?acc))

(contract ExpectChar (l expected msg)
  (match (XC expected S)
    ((sok s) (ret enil) (set S s) (term (bvult (slen s) (slen S))))
    (sfail (fail noeof))))
