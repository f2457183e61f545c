(* Deterministic generator (splitmix-like on 63-bit ints). *)
type t = { mutable s : int }
let mix z =
  let z = (z lxor (z lsr 30)) * 0x3f58476d1ce4e5b9 in
  let z = (z lxor (z lsr 27)) * 0x14d049bb133111eb in
  z lxor (z lsr 31)
let make l = { s = List.fold_left (fun a x -> mix (a * 31 + x + 0x1e3779b97f4a7c15)) 0x1234567 l }
let next g = g.s <- g.s + 0x1e3779b97f4a7c15; mix g.s
let int g n = if n <= 0 then 0 else (next g land max_int) mod n
let range g a b = a + int g (b - a + 1)
let bool g = next g land 1 = 1
let chance g n = int g n = 0
let pick g a = a.(int g (Array.length a))
let pickl g l = List.nth l (int g (List.length l))
let raw g n =
  let b = Bytes.create n in
  let i = ref 0 in
  while !i + 7 <= n do
    let x = next g in
    for k = 0 to 6 do Bytes.unsafe_set b (!i + k) (Char.unsafe_chr ((x lsr (8 * k)) land 255)) done;
    i := !i + 7
  done;
  while !i < n do Bytes.set b !i (Char.unsafe_chr (next g land 255)); incr i done;
  Bytes.unsafe_to_string b
(* byte strings with structure: random, constant, sparse, ramps, high-bit *)
let str g n =
  match int g 8 with
  | 0 -> String.make n '\000'
  | 1 -> String.make n '\255'
  | 2 -> String.make n (Char.chr (int g 256))
  | 3 -> let b = Bytes.make n '\000' in
    if n > 0 then Bytes.set b (int g n) (Char.chr (1 lsl (int g 8)));
    Bytes.unsafe_to_string b
  | 4 -> String.init n (fun i -> Char.chr (i land 255))
  | 5 -> String.map (fun c -> Char.chr (Char.code c lor 128)) (raw g n)
  | _ -> raw g n
(* lengths biased to interesting values around the given pivots *)
let pivots = [| 0; 1; 8; 16; 32; 55; 56; 63; 64; 65; 104; 111; 112; 127; 128; 129; 136; 144; 168; 192; 255; 256; 257; 512; 1024; 2048; 4096 |]
let len g max =
  let l = match int g 4 with
    | 0 -> int g (min max 40 + 1)
    | 1 | 2 -> let p = pick g pivots in p + range g (-2) 2
    | _ -> int g (max + 1) in
  if l < 0 then 0 else if l > max then max else l
(* split n into pieces *)
let split g n =
  let rec go n acc =
    if n = 0 then (if chance g 4 then 0 :: acc else acc) else
      let k = match int g 6 with
        | 0 -> 0 | 1 -> 1 | 2 -> min n (range g 1 16)
        | 3 -> min n (let p = pick g pivots in if p = 0 then 1 else p)
        | 4 -> n
        | _ -> range g 1 n in
      go (n - k) (k :: acc)
  in List.rev (go n [])
