(* Reference semantics. *)
external digest6 : int -> int -> string -> bytes -> int -> int -> string = "ref_digest_b" "ref_digest"
external hmac : int -> string -> string -> string = "ref_hmac"
external siphash : int -> string -> string -> string = "ref_siphash_ml"
external siphash_sub : int -> string -> bytes -> int -> int -> string = "ref_siphash_sub"
external cmac : string -> string -> string = "ref_cmac"
external ecb : int -> bool -> string -> string -> string = "ref_ecb"
external rc4 : string -> int -> string = "ref_rc4"
external chacha20 : string -> string -> int64 -> int -> string = "ref_chacha20"
external gcm : string -> string -> string -> string -> string = "ref_gcm"
external chapoly_std : string -> string -> string -> string -> string = "ref_chapoly"
external gfmul : string -> string -> string = "ref_gfmul"
external deflate : int -> bool -> int -> string -> string = "ref_deflate"
external inflate : bool -> string -> int * string = "ref_inflate"

let k_md5 = 0 and k_sha1 = 1 and k_sha224 = 2 and k_sha256 = 3 and k_sha384 = 4
and k_sha512 = 5 and k_rmd = 6 and k_sha3 = 7 and k_keccak = 8 and k_b2b = 9
and k_b2s = 10 and k_b3 = 11

let digest kind ?(bits = 0) ?(key = "") msg =
  digest6 kind bits key (Bytes.unsafe_of_string msg) 0 (String.length msg)

let xor a b = String.init (min (String.length a) (String.length b))
    (fun i -> Char.chr (Char.code a.[i] lxor Char.code b.[i]))

type mode = ECB | CBC | CFB of int | OFB of int | CTR | CTR_N of int
let mode_name = function
  | ECB -> "ECB" | CBC -> "CBC" | CFB n -> Printf.sprintf "CFB%d" n
  | OFB n -> Printf.sprintf "OFB%d" n | CTR -> "CTR" | CTR_N n -> Printf.sprintf "CTR_%d" n
let to_ck : mode -> Cryptokit.Cipher.chaining_mode = function
  | ECB -> Cryptokit.Cipher.ECB | CBC -> CBC | CFB n -> CFB n | OFB n -> OFB n
  | CTR -> CTR | CTR_N n -> CTR_N n
let unit_of bs = function ECB | CBC | CTR | CTR_N _ -> bs | CFB n | OFB n -> n

(* big-endian increment of the last n bytes, modulo 2^(8n) *)
let incr_last s n =
  let l = String.length s in
  let b = Bytes.of_string s in
  let rec go i k =
    if k > 0 then begin
      let v = (Char.code (Bytes.get b i) + 1) land 255 in
      Bytes.set b i (Char.chr v);
      if v = 0 then go (i - 1) (k - 1)
    end in
  go (l - 1) n; Bytes.to_string b

(* [e]/[d]: raw block functions.  msg: whole number of units. *)
let mode_apply ~e ~d ~bs mode ~decrypt ~iv msg =
  let u = unit_of bs mode in
  let n = String.length msg / u in
  let out = Buffer.create (String.length msg) in
  let iv = ref iv in
  for i = 0 to n - 1 do
    let x = String.sub msg (i * u) u in
    let y = match mode with
      | ECB -> if decrypt then d x else e x
      | CBC ->
        if decrypt then (let y = xor (d x) !iv in iv := x; y)
        else (let y = e (xor x !iv) in iv := y; y)
      | CFB _ ->
        let ks = String.sub (e !iv) 0 u in
        let y = xor x ks in
        let c = if decrypt then x else y in
        iv := String.sub (!iv ^ c) u bs; y
      | OFB _ ->
        let o = e !iv in iv := o; xor x (String.sub o 0 u)
      | CTR -> let y = xor x (e !iv) in iv := incr_last !iv bs; y
      | CTR_N k -> let y = xor x (e !iv) in iv := incr_last !iv k; y in
    Buffer.add_string out y
  done;
  Buffer.contents out

let pad_length bs s = let n = bs - String.length s mod bs in s ^ String.make n (Char.chr n)
let pad_8000 bs s =
  let n = bs - String.length s mod bs in s ^ "\128" ^ String.make (n - 1) '\000'

let cbc_mac ~e ~bs ~iv msg =
  let acc = ref iv in
  for i = 0 to String.length msg / bs - 1 do
    acc := e (xor (String.sub msg (i * bs) bs) !acc)
  done; !acc

(* Poly1305 by its definition *)
let le_num s = Z.of_bits s
let p1305 = Z.sub (Z.shift_left Z.one 130) (Z.of_int 5)
let le_bytes n z =
  let s = Z.to_bits z in
  let l = String.length s in
  String.init n (fun i -> if i < l then s.[i] else '\000')
let clamp = Z.of_string "0x0ffffffc0ffffffc0ffffffc0fffffff"
let poly1305 key msg =
  let r = Z.logand (le_num (String.sub key 0 16)) clamp and s = le_num (String.sub key 16 16) in
  let acc = ref Z.zero in
  let l = String.length msg in
  let i = ref 0 in
  while !i < l do
    let k = min 16 (l - !i) in
    let b = le_num (String.sub msg !i k ^ "\001") in
    acc := Z.erem (Z.mul (Z.add !acc b) r) p1305;
    i := !i + 16
  done;
  le_bytes 16 (Z.logand (Z.add !acc s) (Z.pred (Z.shift_left Z.one 128)))
let pad16 s = let r = String.length s land 15 in if r = 0 then s else s ^ String.make (16 - r) '\000'
let le64 n = String.init 8 (fun i -> Char.chr ((n lsr (8 * i)) land 255))
(* returns ciphertext, tag *)
let chapoly_tag key iv hdr ct =
  let pk = chacha20 key iv 0L 32 in
  poly1305 pk (pad16 hdr ^ pad16 ct ^ le64 (String.length hdr) ^ le64 (String.length ct))
let chapoly_ks key iv n = chacha20 key iv 1L n
let chapoly key iv hdr msg =
  let ct = xor msg (chapoly_ks key iv (String.length msg)) in
  ct ^ chapoly_tag key iv hdr ct

(* AES-GCM by its definition, for any IV; used to build hostile IVs *)
let gf_one = "\128" ^ String.make 15 '\000'
let gf_inv h =
  (* h^(2^128 - 2) *)
  let r = ref gf_one and x = ref h in
  for i = 1 to 127 do x := gfmul !x !x; r := gfmul !r !x done; !r
let be64 n = String.init 8 (fun i -> Char.chr ((n lsr (8 * (7 - i))) land 255))
(* a 16-byte IV whose initial counter block is j0 *)
let gcm_iv_for_j0 key j0 =
  let h = ecb 0 false key (String.make 16 '\000') in
  let hi = gf_inv h in
  let l = String.make 8 '\000' ^ be64 128 in
  gfmul (xor (gfmul j0 hi) l) hi
let gcm_ghash h blocks =
  let y = ref (String.make 16 '\000') in
  for i = 0 to String.length blocks / 16 - 1 do
    y := gfmul (xor !y (String.sub blocks (16 * i) 16)) h done; !y
let gcm_def key iv hdr msg =
  let e = ecb 0 false key in
  let h = e (String.make 16 '\000') in
  let j0 = if String.length iv = 12 then iv ^ "\000\000\000\001"
    else gcm_ghash h (pad16 iv ^ String.make 8 '\000' ^ be64 (8 * String.length iv)) in
  let ctr = ref j0 in
  let b = Buffer.create 100 in
  for i = 0 to (String.length msg + 15) / 16 - 1 do
    ctr := incr_last !ctr 4;
    Buffer.add_string b (xor (String.sub msg (16 * i) (min 16 (String.length msg - 16 * i))) (e !ctr))
  done;
  let ct = Buffer.contents b in
  let s = gcm_ghash h (pad16 hdr ^ pad16 ct ^ be64 (8 * String.length hdr) ^ be64 (8 * String.length ct)) in
  ct ^ xor s (e j0)
let gcm key iv hdr msg =
  if String.length iv <= 120 then gcm key iv hdr msg else gcm_def key iv hdr msg
(* total length and CRC-32 of the decompressed data, consumed input, status; streaming *)
external inflate_crc : bool -> string -> int * int * int * int = "ref_inflate_crc"
external crc32 : int -> bytes -> int -> int -> int = "ref_crc32"
(* level window_bits mem_level strategy flush_kind flush_every data *)
external deflate2 : int -> int -> int -> int -> int -> int -> string -> string = "ref_deflate2_b" "ref_deflate2"
