(* C25 lossless compression, C26 corrupt streams *)
open Cryptokit
type ('a,'b) result = ('a,'b) Stdlib.result = Ok of 'a | Error of 'b
open Zoo
module G = Gen0
let spf = Printf.sprintf

let expand key hdr c want =
  let st, o = Rf.inflate hdr c in
  if st <> 0 then (Mon.seen key; Mon.fail "%s: the output is not a complete stream (status %d, %d bytes of %d expanded)" key st (String.length o) (String.length want));
  Mon.check_eq (key ^ " expanded by zlib") ~got:o ~want
(* data designed to stress the two loops: incompressible, very compressible, mixtures *)
let zdata g n = match G.int g 6 with
  | 0 -> String.make n (Char.chr (G.int g 256))
  | 1 -> any_data g n
  | 2 -> let b = Buffer.create n in
    while Buffer.length b < n do
      let k = min (n - Buffer.length b) (G.range g 1 (1 + n / 2)) in
      Buffer.add_string b (if G.bool g then G.raw g k else String.make k 'z') done;
    Buffer.contents b
  | _ -> G.raw g n
let size g = match G.int g 8 with
  | 0 -> G.int g 20 | 1 -> G.len g 700 | 2 -> 256 * G.range g 0 20 + G.range g (-12) 12 | 3 -> G.range g 0 3000
  | 4 -> 512 * G.range g 1 64 + G.range g (-14) 6 | 5 -> G.range g 0 70000 | _ -> G.len g 5000
let comp_case i g =
  let level = if i mod 12 < 10 then i mod 12 else -1 and hdr = G.bool g in
  let s = zdata g (max 0 (size g)) in
  let key = spf "compress l%d %b n=%d" level hdr (String.length s) in
  let t = match level with -1 -> if hdr then Zlib.compress ~write_zlib_header:true () else Zlib.compress ()
                         | l -> Zlib.compress ~level:l ~write_zlib_header:hdr () in
  let out = Buffer.create 1000 in
  let pos = ref 0 in
  let flushes = G.int g 4 in   (* how often *)
  let nfl = ref 0 in
  let do_flush () =
    for _ = 1 to G.pick g [| 1; 1; 2; 3 |] do t#flush; incr nfl; if G.chance g 3 then Work.drain g t out done;
    if G.chance g 3 || !nfl < 4 then begin
      Buffer.add_string out t#get_string;
      let st, o = Rf.inflate hdr (Buffer.contents out) in
      if st <> 1 then (Mon.seen key; Mon.fail "%s: output after a flush is not a stream prefix (status %d)" key st);
      Mon.check_eq (spf "%s: recoverable after flush" key) ~got:o ~want:(String.sub s 0 !pos);
      Mon.event "flush_prefix_recovered" 1
    end in
  if G.chance g 4 then do_flush ();
  List.iter (fun k ->
      ignore (put_piece g t (String.sub s !pos k)); pos := !pos + k;
      Work.drain g t out;
      if flushes > 0 && G.chance g (1 + flushes * 2) then do_flush ())
    (G.split g (String.length s));
  t#finish;
  Buffer.add_string out t#get_string;
  let c = Buffer.contents out in
  Mon.event "bytes_compressed" (String.length s);
  expand key hdr c s;
  (* the library's own decompressor *)
  let o = Buffer.create 1000 in
  Work.run_tr g (Zlib.uncompress ~expect_zlib_header:hdr ()) c o;
  Mon.check_eq (key ^ " expanded by the library") ~got:(Buffer.contents o) ~want:s;
  if G.chance g 4 then begin
    let s' = transform_string (compose (Zlib.compress ~level:(G.int g 10) ~write_zlib_header:hdr ()) (Zlib.uncompress ~expect_zlib_header:hdr ())) s in
    Mon.check_eq (key ^ " composed") ~got:s' ~want:s
  end
(* consecutive sizes, one put: output lengths sweep over the internal buffer sizes *)
let sizes_case i g =
  let s = G.raw g i in
  List.iter (fun (level, hdr) -> List.iter (fun fl ->
      let key = spf "sizes l%d %b n=%d" level hdr i in
      let t = Zlib.compress ~level ~write_zlib_header:hdr () in
      t#put_string s;
      if fl then begin
        t#flush; t#flush;
        let c = t#get_string in
        let st, o = Rf.inflate hdr c in
        Mon.check (key ^ " prefix after flush") (st = 1 && o = s);
        t#finish;
        expand key hdr (c ^ t#get_string) s
      end else begin t#finish; expand key hdr t#get_string s end;
      Mon.event "sizes" 1) [ true; false ]) [ 0, false; 1, true; 6, false; 9, true ];
  (* sizes of the expanded data *)
  List.iter (fun (level, s) ->
      let hdr = G.bool g in
      let c = Rf.deflate level hdr 0 s in
      let t = Zlib.uncompress ~expect_zlib_header:hdr () in
      if G.bool g then t#put_string c
      else begin t#put_string (String.sub c 0 (String.length c - 1)); t#put_char c.[String.length c - 1] end;
      t#finish;
      Mon.check_eq (spf "uncompress sizes n=%d" (String.length s)) ~got:t#get_string ~want:s)
    [ 0, s; 6, s; 9, String.make i 'q'; 9, String.make (256 * i) 'q'; 1, String.make (16 * i + 7) 'r' ]
let stored g s =
  (* stored blocks of arbitrary sizes, empty ones included *)
  let b = Buffer.create 100 in
  let n = String.length s in
  let blk final pos k =
    Buffer.add_char b (if final then '\001' else '\000');
    List.iter (fun v -> Buffer.add_char b (Char.chr (v land 255)); Buffer.add_char b (Char.chr (v lsr 8))) [ k; k lxor 0xffff ];
    Buffer.add_string b (String.sub s pos k) in
  let pos = ref 0 in
  while !pos < n || G.chance g 3 do
    let k = min (n - !pos) (match G.int g 4 with 0 -> 0 | 1 -> 256 | 2 -> G.int g 65536 | _ -> G.int g 300) in
    blk false !pos k; pos := !pos + k done;
  blk true n 0; Buffer.contents b
let uncomp_case i g =
  let s = zdata g (max 0 (if G.chance g 6 then G.range g 100000 400000 else size g)) in
  let raw = G.bool g in
  let kind = G.int g 4 in
  let c, raw = if kind = 0 then stored g s, true
    else begin
      let wb = if G.bool g then 15 else G.range g 9 15 in
      Rf.deflate2 (G.int g 10) (if raw then -wb else wb) (G.range g 1 9) (G.int g 5) (G.int g 5)
        (if G.bool g then 0 else G.pick g [| 1000; 10; 5000; 300; 32768 |]) s, raw end in
  let key = spf "uncompress raw=%b kind=%d n=%d c=%d" raw kind (String.length s) (String.length c) in
  let t = Zlib.uncompress ~expect_zlib_header:(not raw) () in
  let out = Buffer.create 1000 in
  (match G.int g 4 with
   | 0 -> String.iter (fun ch -> t#put_char ch; if G.chance g 50 then Work.drain g t out) c; t#finish; Buffer.add_string out t#get_string
   | 1 -> t#put_string c; t#finish; Buffer.add_string out t#get_string
   | 2 -> let pos = ref 0 in
     List.iter (fun k -> ignore (put_piece g t (String.sub c !pos k)); pos := !pos + k;
                 if G.bool g then t#flush; Work.drain g t out) (G.split g (String.length c));
     t#finish; Buffer.add_string out t#get_string
   | _ -> Work.run_tr g t c out);
  Mon.event "bytes_expanded" (String.length s);
  Mon.check_eq key ~got:(Buffer.contents out) ~want:s
(* a conversation: each message is flushed by the sender and must be readable by the receiver *)
let talk_case i g =
  let hdr = G.bool g in
  let c = Zlib.compress ~level:(G.int g 10) ~write_zlib_header:hdr () in
  let u = Zlib.uncompress ~expect_zlib_header:hdr () in
  let sent = Buffer.create 100 and got = Buffer.create 100 in
  for k = 1 to G.range g 1 6 do
    let s = zdata g (G.len g 9000) in
    ignore (put_piece g c s); Buffer.add_string sent s;
    c#flush;
    let z = c#get_string in
    ignore (put_piece g u z); u#flush;
    Buffer.add_string got u#get_string;
    Mon.check_eq (spf "conversation message %d n=%d" k (String.length s)) ~got:(Buffer.contents got) ~want:(Buffer.contents sent)
  done;
  c#finish; u#put_string c#get_string; u#finish;
  Buffer.add_string got u#get_string;
  Mon.check_eq "conversation end" ~got:(Buffer.contents got) ~want:(Buffer.contents sent)
let large_case i g =
  let n = G.range g 1_000_000 12_000_000 in
  let s = if i land 1 = 0 then G.raw g n else (let a = G.raw g 5000 in String.init n (fun i -> a.[(i * (1 + i / 100000)) mod 5000])) in
  let hdr = i land 2 = 0 in
  let t = Zlib.compress ~level:(G.pick g [| 0; 1; 6; 9 |]) ~write_zlib_header:hdr () in
  if G.bool g then t#put_string s else (let k = G.int g n in t#put_string (String.sub s 0 k); t#flush; t#put_substring (Bytes.of_string s) k (n - k));
  if G.bool g then t#flush;
  t#finish;
  let c = t#get_string in
  expand (spf "large %b" hdr) hdr c s;
  let u = Zlib.uncompress ~expect_zlib_header:hdr () in
  if G.bool g then u#put_string c else (let k = G.int g (String.length c) in u#put_string (String.sub c 0 k); u#put_string (String.sub c k (String.length c - k)));
  u#finish;
  let r = u#get_string in
  Mon.check (spf "large %b expanded by the library" hdr) (String.equal r s);
  Mon.event "bytes_compressed" n
let fill n = 
  let b = Bytes.make n 'a' in
  let i = ref 0 in while !i < n do Bytes.set b !i (Char.chr ((!i lsr 16) land 255)); i := !i + 4096 done; b
let huge_case i g =
  (* more than 4 GB in one piece *)
  let n = (1 lsl 32) + 100_000 in
  let b = fill n in
  let hdr = true in
  let t = Zlib.compress ~level:1 ~write_zlib_header:hdr () in
  t#put_substring b 0 n; t#finish;
  let c = t#get_string in
  let st, total, crc, used = Rf.inflate_crc hdr c in
  Mon.check (spf "huge piece: status %d, %d bytes of %d" st total n) (st = 0 && total = n && used = String.length c);
  Mon.check "huge piece: contents" (crc = Rf.crc32 0 b 0 n)
let huge_u_case i g =
  let n = (1 lsl 32) + 100_000 in
  (* stored blocks: every input byte but five in 64 kB comes out *)
  let m = 65535 in
  let nb = n / (m + 5) in
  let b = Bytes.make (nb * (m + 5) + 5) 'y' in
  for k = 0 to nb - 1 do
    let p = k * (m + 5) in
    Bytes.set b p '\000'; Bytes.set b (p+1) '\255'; Bytes.set b (p+2) '\255'; Bytes.set b (p+3) '\000'; Bytes.set b (p+4) '\000';
    Bytes.set b (p + 5 + k mod m) (Char.chr (k land 255))
  done;
  Bytes.blit_string "\001\000\000\255\255" 0 b (nb * (m + 5)) 5;
  let t = Zlib.uncompress () in
  t#put_substring b 0 (Bytes.length b); t#finish;
  let (o, p, l) = t#get_substring in
  let st, total, crc, _ = Rf.inflate_crc false (Bytes.unsafe_to_string b) in
  Mon.check (spf "huge stream: %d bytes of %d" l total) (st = 0 && l = total);
  Mon.check "huge stream: contents" (crc = Rf.crc32 0 o p l)

(* ---- C26 ---- *)
(* Ok contents or exception name; afterwards the object is used further, which must stay harmless *)
let try_expand g hdr c =
  let t = Zlib.uncompress ~expect_zlib_header:hdr () in
  let out = Buffer.create 256 in
  let r = Mon.catch (fun () ->
      (match G.int g 3 with
       | 0 -> t#put_string c; t#finish; Buffer.add_string out t#get_string
       | 1 when String.length c < 400 -> String.iter (fun ch -> t#put_char ch) c; t#finish; Buffer.add_string out t#get_string
       | _ -> Work.run_tr g t c out);
      Buffer.contents out) in
  if G.chance g 4 then begin
    for _ = 1 to 3 do
      ignore (Mon.catch (fun () -> match G.int g 5 with
          | 0 -> t#put_string (G.raw g (G.int g 30)) | 1 -> t#finish | 2 -> t#flush | 3 -> ignore t#get_string | _ -> t#put_char 'x'))
    done;
    if G.bool g then t#wipe
  end;
  r
let judge key hdr c s r =
  match r with
  | Error "Compression_error" -> Mon.seen (key ^ " error"); Mon.event "corruption_detected" 1
  | Error e -> Mon.seen key; Mon.fail "%s: %s raised instead of a compression error" key e
  | Ok o ->
    Mon.seen (key ^ " ok");
    if o = s then Mon.event "original_recovered" 1
    else begin
      match Rf.inflate hdr c with
      | 0, o' when o' = o -> Mon.event "checksum_collision" 1
      | _ -> Mon.fail "%s: altered stream expanded to other contents without error (got %d bytes, original %d)" key (String.length o) (String.length s)
    end
let src g = match G.int g 5 with
  | 0 -> zdata g (G.int g 30) | 1 | 2 -> zdata g (G.len g 600) | 3 -> any_data g (G.len g 3000) | _ -> zdata g (G.range g 0 40000)
let stream g s = match G.int g 3 with
  | 0 -> let t = Zlib.compress ~level:(G.int g 10) ~write_zlib_header:true () in transform_string t s
  | 1 -> Rf.deflate (G.int g 10) true (G.int g 5) s
  | _ -> Rf.deflate2 (G.int g 10) (G.range g 9 15) (G.range g 1 9) (G.int g 5) (G.int g 5) (if G.bool g then 0 else G.range g 5 400) s
let corrupt = Work.corrupt
let corrupt_case i g =
  let s = src g in
  let c = stream g s in
  for _ = 1 to 6 do
    let what, c' = corrupt g c in
    if c' <> c then
      judge (spf "corrupt %s n=%d" what (String.length s / 16)) true c' s (try_expand g true c')
  done
(* every truncation and every single-byte alteration of a short stream *)
let sweep_case i g =
  let s = zdata g (G.int g 90) in
  let c = stream g s in
  let n = String.length c in
  for k = 0 to n - 1 do
    let t = String.sub c 0 k in
    judge (spf "sweep truncated at %d of %d" k n) true t s (try_expand g true t);
    let b = G.range g 1 255 in
    let t = String.mapi (fun i ch -> if i = k then Char.chr (Char.code ch lxor b) else ch) c in
    judge (spf "sweep altered at %d of %d" k n) true t s (try_expand g true t)
  done;
  (* garbage after the end, in the same or in a later call, must not change the contents *)
  let t = Zlib.uncompress ~expect_zlib_header:true () in
  let out = Buffer.create 100 in
  judge "sweep garbage in a later call" true "" s
    (Mon.catch (fun () -> t#put_string c; Buffer.add_string out t#get_string; t#put_string (G.raw g (G.range g 1 9)); t#finish;
                 Buffer.add_string out t#get_string; Buffer.contents out))
let arbitrary_case i g =
  let hdr = G.chance g 3 in
  let c = match G.int g 5 with
    | 0 -> G.raw g (G.len g 300)
    | 1 -> let s = Rf.deflate (G.int g 10) hdr (G.int g 5) (src g) in snd (corrupt g s)
    | 2 -> (if hdr then "\x78\x9c" else "") ^ String.make 1 (Char.chr (G.pick g [| 0; 1; 2; 3; 4; 5; 6; 7; 0x63; 0xed |])) ^ G.raw g (G.len g 300)
    | 3 -> G.str g (G.len g 300)
    | _ -> let s = ref (Rf.deflate (G.int g 10) hdr (G.int g 5) (src g)) in
      for _ = 1 to 3 do s := (if !s = "" then G.raw g 3 else snd (corrupt g !s)) done; !s in
  let key = spf "arbitrary hdr=%b n=%d" hdr (String.length c / 8) in
  match try_expand g hdr c with
  | Error "Compression_error" -> Mon.seen (key ^ " error")
  | Error e -> Mon.fail "%s: %s raised" key e
  | Ok o ->
    Mon.seen (key ^ " ok");
    (match Rf.inflate hdr c with
     | 0, o' when o <> o' -> Mon.fail "%s: conforming stream expanded wrongly" key
     | _ -> ())
let f name quick thorough run = { Mon.name; quick; thorough; run }
let props = [
  "C25", [ f "huge" 1 1 huge_case; f "huge-stream" 0 1 huge_u_case; f "compress" 4000 120000 comp_case; f "sizes" 1400 4000 sizes_case;
           f "uncompress" 2500 80000 uncomp_case; f "conversation" 1500 40000 talk_case; f "large" 8 100 large_case ];
  "C26", [ f "corrupt" 9000 150000 corrupt_case; f "sweep" 1500 10000 sweep_case; f "arbitrary" 24000 300000 arbitrary_case ];
]
