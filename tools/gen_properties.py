#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": None}})

BV="src/bit_vec/mod.rs"; RS="src/bit_vec/fast_rs_vec/mod.rs"; SEL="src/bit_vec/fast_rs_vec/select.rs"
RIT="src/bit_vec/fast_rs_vec/iter.rs"; MASK="src/bit_vec/mask.rs"; SP="src/bit_vec/sparse.rs"
EF="src/elias_fano/mod.rs"; EFI="src/util/elias_fano_iter.rs"; GI="src/util/general_iter.rs"
BR="src/rmq/binary_rmq/mod.rs"; FR="src/rmq/fast_rmq/mod.rs"; WM="src/wavelet/mod.rs"
BP="src/trees/bp/mod.rs"; MMT="src/trees/mmt.rs"; PDEP="src/util/pdep.rs"; LK="src/trees/bp/lookup.rs"; LKQ="src/trees/bp/lookup_query.rs"

p("C01","BitVec mutations have exact bit-sequence semantics",
  "Every constructor of BitVec yields exactly the bit sequence its arguments describe, and after any history of append, append_bit, append_bits, append_word, extend, drop_last, flip, set and split_at operations the vector denotes exactly the sequence obtained by applying the same operations to a list of bits. Operations leave every bit they do not name unchanged, the length is always the length of that list, and rejected operations (out-of-bounds set or split) change nothing.",
  ["inputs","histories"],"every constructor argument, every finite history of mutations, every length and word alignment",
  "Tests run short fixed histories at a few alignments; residue left behind the length by drop_last or split_at and word-boundary crossings need particular histories.",
  [BV],[("limb arithmetic of append/append_bits/append_word/drop_last/split_at/set/flip",BV),("from_* and pack_* constructors",BV)],
  ["BitVec::get","BitVec::len"],[{"name":"data/len","meaning":"64-bit limbs, little endian; bits at positions >= len are unspecified residue","where":BV}])
p("C02","BitVec reads, packed access and counts agree with the bit sequence",
  "For every bit vector and every position, single-bit reads, multi-bit reads of 1 to 64 bits, packed-element reads and the counts of ones and zeros return exactly what the sequence of bits prescribes, independent of how the vector was built. Checked reads never panic and return None exactly when the requested bits are not all inside the vector or the width is not between 1 and 64, and packing a sequence of integers followed by unpacking each element returns the low bits of every integer.",
  ["inputs","histories"],"every bit vector reachable through the API, every position, width and element index",
  "Tests read at sampled positions; the two-limb path, 64-bit unaligned reads, positions near usize::MAX and vectors with residue behind the end are not enumerated.",
  [BV],[("get_bits_unchecked two-limb read",BV),("count_ones masking of the last limb",BV),("unpack_element",BV)],["BitVec::get","BitVec::get_bits","BitVec::unpack_element","BitVec::count_ones","BitVec::count_zeros"])
p("C03","BitVec equality and hashing depend on the bit sequence only",
  "Two bit vectors compare equal if and only if they have the same length and the same bit at every position, no matter through which history of operations each was produced. Equal vectors have equal hashes.",
  ["inputs","histories"],"every pair of bit vectors reachable through the API, including residue bits behind the length",
  "Needs pairs built by different histories that leave different residue in the last limb; tests compare a few vectors.",
  [BV],[("PartialEq/Hash masking of the last limb",BV)],["BitVec == BitVec","Hash for BitVec"])
p("C04","Bit masks: lazy masked view and eager application agree with bitwise combination",
  "For two bit vectors of equal length and any bitwise operation, the lazily masked view reports for every read (single bit, up to 64 bits, counts, conversion to a BitVec) exactly the bits of the pointwise combination, and applying the mask in place yields a vector with exactly these bits. Vectors of different length are rejected without modification, and checked reads return None exactly when out of bounds.",
  ["inputs","histories"],"every pair of vectors of any length, and/or/xor/custom operations, every position and width 1..=64",
  "Operations that map zero bits to ones create residue behind the end and unaligned 64-bit reads need specific positions; tests sample few.",
  [MASK,BV],[("MaskedBitVec reads and counts",MASK),("apply_mask_*",BV)],["MaskedBitVec::get_bits","MaskedBitVec::count_ones","MaskedBitVec::to_bit_vec","BitVec::apply_mask_*"])
p("C05","RsVec rank counts exactly the zeros and ones before a position",
  "For every bit vector turned into a rank/select vector and every position, rank0 and rank1 return the exact number of zeros and ones strictly before that position; positions at or beyond the length yield the total number of zeros respectively ones.",
  ["inputs"],"every bit content, every length relative to the 512-bit block and 8192-bit super-block boundaries, every position",
  "Counter corruption only shows for particular densities near block boundaries; tests use few lengths and random contents.",
  [RS],[("from_bit_vec builds block and super-block counters",RS),("rank combines counters and popcounts",RS)],["RsVec::rank0","RsVec::rank1"],
  [{"name":"blocks/super_blocks","meaning":"cumulated zero counts per block within a super-block and per super-block","where":RS}])
p("C06","RsVec select returns the position of the n-th zero or one",
  "For every rank/select vector and every n, select0(n) and select1(n) return the position of the zero respectively one that has exactly n predecessors of its kind, and the length of the vector if there is no such bit.",
  ["inputs","configurations"],"every bit content and length, every n including n beyond the count; with and without hardware pdep/SIMD",
  "The select path (select blocks, super-block search, unrolled block search, word search) depends on densities across 8192-rank and 8192-bit boundaries that tests only sample.",
  [SEL,RS,PDEP],[("select block lookup + super block search",SEL),("unrolled block search and word search",SEL),("pdep based in-word select",PDEP)],["RsVec::select0","RsVec::select1"],
  [{"name":"select_blocks","meaning":"super-block in which every 8192-th zero/one lies","where":RS}])
p("C07","RsVec preserves the bits it was built from; equality is content equality",
  "A rank/select vector reports for every position and multi-bit read (0 to 64 bits) exactly the bits of the vector it was built from, reads out of bounds return None, and converting back yields an equal bit vector. Two rank/select vectors are equal, by every offered comparison strategy, if and only if their lengths and all bits agree.",
  ["inputs"],"every bit vector (including ones with residue behind the end), every position and width, every pair for equality, both sparse comparison directions and the full comparison",
  "Equality chooses strategies by length and density (above 4 million bits) and construction rewrites the tail; tests compare only a few vectors.",
  [RS,BV],[("get/get_bits",RS),("into_bit_vec",RS),("sparse_equals/full_equals/eq strategy choice",RS)],["RsVec::get","RsVec::get_bits","RsVec::into_bit_vec","RsVec == RsVec"])
p("C08","Select iterators enumerate exactly the positions of zeros or ones",
  "The iterators over the zeros or ones of a rank/select vector yield exactly the positions of these bits in increasing order from the front and decreasing order from the back, each exactly once, under any interleaving of next, next_back, nth and nth_back. The reported remaining length is exact after every step, and after exhaustion they keep returning None.",
  ["inputs","histories"],"every rank/select vector and every finite call sequence of next/next_back/nth/nth_back on borrowed and owning iterators",
  "Iterators cache the last super-block and block; stale caches only show for particular interleavings across block boundaries.",
  [RIT,SEL],[("cached super-block/block positions",RIT),("advance_by/advance_back_by",RIT)],["RsVec::iter0","RsVec::iter1","RsVec::into_iter0","RsVec::into_iter1","RsVec::select_iter"])
p("C09","Elias-Fano vectors store the sequence losslessly",
  "For every non-decreasing sequence of 64-bit integers, the Elias-Fano vector has the length of the sequence, returns exactly the i-th value for every valid index, None beyond, and delta reports the difference to the previous element (the element itself for index 0).",
  ["inputs"],"every non-decreasing u64 sequence: empty, constant, dense, sparse, full 64-bit universe, huge gaps",
  "Bit splits depend on the ratio of universe to length, including universes near 2^64; tests cover few ratios.",
  [EF],[("from_slice splits into upper/lower bits",EF),("get_unchecked/select via upper_vec.select1",EF),("delta",EF)],["EliasFanoVec::get","EliasFanoVec::select","EliasFanoVec::delta","EliasFanoVec::len"])
p("C10","Elias-Fano predecessor, successor and rank are exact",
  "For every non-decreasing sequence and every 64-bit query value n, predecessor returns the largest element not greater than n, successor the smallest element not less than n (None when there is none), and rank the number of elements strictly smaller than n.",
  ["inputs"],"every non-decreasing sequence incl. duplicates and long runs sharing upper bits, every query below, between, equal to and above the elements",
  "The search inside a bucket switches from linear to binary search depending on the run length, and the query crosses empty buckets; random tests rarely construct long equal-upper runs.",
  [EF],[("search_element_in_block linear/binary search",EF),("predecessor/successor/rank bounds",EF)],["EliasFanoVec::predecessor","EliasFanoVec::successor","EliasFanoVec::rank"])
p("C11","SparseRSVec answers like the bit vector it represents",
  "A sparse vector built from sorted positions and a length, or from a bit vector (or its inversion), answers membership, rank0, rank1, select1 and iteration exactly as the plain bit sequence does, with None for out-of-bounds positions, and select1 of an absent rank and rank beyond the end returning the length and the total count.",
  ["inputs"],"every sorted set of positions and length, every bit vector, every query position or rank",
  "Depends on the composition of limb scanning and Elias-Fano search; tests use a handful of vectors.",
  [SP,EF],[("from_bitvec/from_bitvec_inverted limb scan",SP),("is_set/rank/select via Elias-Fano",SP)],["SparseRSVec::is_set","SparseRSVec::rank0","SparseRSVec::rank1","SparseRSVec::select1","SparseRSVec::iter1"])
p("C12","BinaryRmq returns the position of a minimum of every range",
  "For every array of at least one 64-bit integer and all i <= j inside it, range_min(i, j) on the sparse-table structure returns an index between i and j (inclusive) at which the minimum of that range is attained. range_min_with_range gives the answer for the inclusive interval that the given Rust range denotes.",
  ["inputs"],"every array content and length, every pair i <= j, all Rust range forms",
  "Tests check a few arrays; table levels near power-of-two lengths and ties need systematic coverage.",
  [BR],[("from_vec sparse table of relative offsets",BR),("range_min combining two overlapping powers of two",BR)],["BinaryRmq::range_min","BinaryRmq::range_min_with_range"])
p("C13","FastRmq returns the position of a minimum of every range",
  "For every array of at least one 64-bit integer and all i <= j inside it, range_min(i, j) on the block-decomposed structure returns an index between i and j (inclusive) at which the minimum of that range is attained. range_min_with_range gives the answer for the inclusive interval that the given Rust range denotes.",
  ["inputs"],"every array content and length relative to the 128-element blocks, every pair i <= j incl. block borders, all Rust range forms",
  "Per-position prefix/suffix minimum bitmaps and block borders interact; tests sample random arrays.",
  [FR],[("prefix/suffix minimum bit maps per block",FR),("range_min case split",FR)],["FastRmq::range_min","FastRmq::range_min_with_range"])
p("C14","Wavelet matrix stores the symbol sequence; construction methods agree",
  "For every sequence of k-bit symbols with k at least 1, the wavelet matrix reports the right length and symbol width, returns exactly the i-th symbol for each index (None beyond the end), as a bit vector and, if k is at most 64, as an integer. All construction methods (from packed bits or from integers, by permutation sorting or by prefix counting) give the same answers.",
  ["inputs"],"every symbol width, every sequence of k-bit symbols, every index, all constructors",
  "Stable partition per level must be right for every content; tests construct a few sequences.",
  [WM],[("permutation_sorting",WM),("prefix_counting",WM),("reconstruct_value_unchecked",WM)],["WaveletMatrix::get_value","WaveletMatrix::get_u64","WaveletMatrix::len"])
p("C15","Wavelet matrix rank and select count and locate symbols exactly",
  "For every symbol sequence, rank_range counts exactly the occurrences of a symbol in a range, rank counts occurrences in a prefix, rank_offset between an offset and an index, and select/select_offset return the position of the occurrence with the given rank at or after the offset. Queries out of range, with a symbol of the wrong width or without such an occurrence return None.",
  ["inputs"],"every sequence, range, offset, symbol (bit vector and integer variants) and rank",
  "Interval mapping through every level has to be exact for every range and symbol; tests cover a few random sequences.",
  [WM],[("rank_range_unchecked level mapping",WM),("select_offset_unchecked down/up pass",WM)],["WaveletMatrix::rank*","WaveletMatrix::select*"])
p("C16","Wavelet matrix order statistics and neighbour queries are exact",
  "For every symbol sequence and range, quantile returns the k-th smallest symbol of the range, get_sorted the i-th smallest of all, and range_min, range_max and range_median the smallest, largest and lower median symbol; predecessor and successor return the largest symbol not greater and the smallest symbol not less than a query within the range. Empty, inverted or out-of-bounds ranges and absent neighbours yield None.",
  ["inputs"],"every sequence, range, rank k and query symbol, in bit vector and integer variants",
  "Backtracking in predecessor/successor is only exercised for specific symbol distributions; tests sample few.",
  [WM],[("partial_quantile_search",WM),("predecessor/successor generic backtracking",WM)],["WaveletMatrix::quantile*","WaveletMatrix::range_*","WaveletMatrix::predecessor*","WaveletMatrix::successor*"])
p("C17","Parenthesis excess searches find the nearest matching position",
  "On every sequence of parentheses, balanced or not, and for every block size, forward search from a position returns the smallest later position whose inclusive excess differs by the given relative amount, backward search the largest earlier position whose excess before it differs accordingly, and None if there is none. Consequently close, open and enclose return the matching and the enclosing parenthesis, and excess reports opening minus closing parentheses up to and including the position.",
  ["inputs","configurations"],"every parenthesis sequence, start position, relative excess and block size, 8-bit and 16-bit lookup tables",
  "Searches combine byte lookup tables, in-block scans and the min-max tree; partial blocks and far searches need particular shapes.",
  [BP,MMT,LK,LKQ],[("fwd/bwd_search_block with lookup tables",BP),("min-max tree up/down search",MMT)],["BpTree::fwd_search","BpTree::bwd_search","BpTree::close","BpTree::open","BpTree::enclose","BpTree::excess"])
p("C18","Balanced-parentheses trees navigate like the tree they encode",
  "For every ordinal tree encoded as balanced parentheses, every node and every block size, parent, first and last child, next and previous sibling, depth, leaf test, subtree size, ancestor test, node index and node handle agree with the tree, and None is returned exactly when the relative does not exist.",
  ["inputs","configurations"],"every ordered tree (deep, wide, random), every node and pair of nodes, every block size",
  "Each query reduces to excess searches whose edge cases depend on the shape and the block alignment; tests use small fixed trees.",
  [BP,MMT],[("Tree/IsAncestor/SubtreeSize for BpTree",BP)],["Tree for BpTree","SubtreeSize for BpTree","IsAncestor for BpTree"])
p("C19","Tree building, traversals and level queries agree with the tree",
  "Building a tree by entering and leaving nodes yields exactly the balanced sequence of these calls and an error with the excess when unbalanced; pre-order and post-order traversals of the whole tree or of a subtree and the children iterators in both directions visit exactly the prescribed nodes in order. Level ancestor, level successor and predecessor, leftmost and rightmost node of a level and the size agree with the tree. On unbalanced sequences level queries may answer anything but do not panic.",
  ["inputs","histories"],"every enter/leave sequence, every tree, node and level, every block size",
  "Traversal slices and level queries use relative excess searches whose boundary cases depend on tree shape; tests have a few shapes.",
  [BP,"src/trees/bp/builder.rs"],[("BpBuilder",  "src/trees/bp/builder.rs"),("subtree iterators and children iterators",BP),("LevelTree for BpTree",BP)],["BpBuilder","BpTree::dfs_iter","BpTree::dfs_post_iter","BpTree::subtree_iter","BpTree::subtree_post_iter","BpTree::children","BpTree::rev_children","LevelTree for BpTree"])
p("C20","Element iterators behave as double-ended iterators over the sequence",
  "The element iterators of bit vectors, rank/select vectors, Elias-Fano vectors and wavelet matrices (including sorted order) yield under any interleaving of next, next_back, nth and nth_back exactly what the same calls on an iterator over the list of elements yield. Their length, size hint, count, last, and (for Elias-Fano) minimum and maximum are those of the elements that remain.",
  ["inputs","histories"],"every container content, every finite sequence of iterator calls, borrowed and owning iterators",
  "The Elias-Fano iterator decodes incrementally from both ends and skips need resynchronisation; only particular interleavings expose errors.",
  [GI,EFI],[("impl_vector_iterator macro",GI),("impl_ef_iterator macro",EFI)],["iter()/into_iter() of BitVec, RsVec, EliasFanoVec, WaveletMatrix"])
p("C21","Serialisation round-trips preserve every structure",
  "Serialising any structure and deserialising it again yields a structure that answers every query identically.",
  ["inputs","configurations"],"every structure and content",
  "Implemented entirely by derive macros of an external crate; tests do not cover all types.",
  ["src/lib.rs"],[("serde derive attributes","src/")],["serde::Serialize / Deserialize"])
p("C22","Results do not depend on enabled CPU features or optional crate features",
  "Every query returns the same answer whether or not SIMD, hardware bit deposit and the wide lookup table are enabled, and the SIMD-only position iterator enumerates the same positions as the portable one.",
  ["inputs","configurations"],"all feature and target-cpu combinations, all inputs",
  "Tests run two configurations on sampled inputs.",
  [SEL,"src/bit_vec/fast_rs_vec/bitset.rs",PDEP,LK],[("cfg-selected SIMD implementations",SEL),("BitSetIter","src/bit_vec/fast_rs_vec/bitset.rs")],["RsVec::select0","RsVec::bit_set_iter0","RsVec::bit_set_iter1"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
