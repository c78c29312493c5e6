import json
B="include/boost/circular_buffer/base.hpp"; D="include/boost/circular_buffer/details.hpp"
S="include/boost/circular_buffer/space_optimized.hpp"; G="include/boost/circular_buffer/debug.hpp"
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)
ST=[("ring cursors","start/end of storage, first and one-past-last element, element count",B+" (member variables)")]
p("C01","Pushing and popping at the ends keeps the newest elements in order",
 "push_back and push_front add exactly the given value at that end and, when the buffer is full, drop exactly the one element at the opposite end; with capacity 0 they do nothing. pop_back and pop_front remove exactly the element at that end. Capacity and every other element and its relative order stay as they were.",
 ["inputs","histories"],"every capacity, physical start offset, size and element values of the buffer before the call; lvalue, rvalue and default-value overloads",
 "Tests use a few literal buffers of capacity 4-5; the wrap position x fill level x overload product is not covered.",
 [B],[("overwrite when full, construct otherwise","circular_buffer::push_back_impl / push_front_impl"),("ring stepping","circular_buffer::increment / decrement"),("pop","circular_buffer::pop_back / pop_front")],ST,["size()","capacity()","operator[]","begin()/end()"])
p("C02","Inserting one element at any position overwrites only at the far end",
 "insert(pos, x) puts x immediately before pos and, if the buffer is full, drops exactly the first element; rinsert(pos, x) puts x immediately before pos and, if full, drops exactly the last element. If the buffer is full and the insertion point is at the end that would be dropped (begin() for insert, end() for rinsert), or the capacity is 0, nothing changes. The returned iterator designates the inserted element (or begin() / end() when nothing was inserted).",
 ["inputs","histories"],"every capacity, start offset, size, position and value; lvalue, rvalue and default-value overloads",
 "Tests check a handful of positions in two layouts; shifting across the wrap point depends on the offset of the storage.",
 [B],[("shift towards the end","circular_buffer::insert_item / insert_impl"),("shift towards the beginning","circular_buffer::rinsert_impl")],ST)
p("C03","Bulk insertion keeps exactly the documented part of range and old content",
 "insert(pos, n, x) and insert(pos, first, last) insert the last min(n, (pos-begin())+reserve()) items before pos, overwriting from the front only as many old elements as do not fit; rinsert inserts the first min(n, (end()-pos)+reserve()) items and overwrites from the back. This holds for every n of the size type and for ranges given by random-access, forward or genuinely single-pass input iterators. Capacity and the order of all surviving elements are unchanged.",
 ["inputs","histories"],"every capacity, start offset, size, position; n over the whole 64-bit size type; range lengths and contents; iterator category",
 "Tests use fixed 5-element ranges and n up to about 10; they never pass extreme counts or a truly single-pass iterator in every layout.",
 [B],[("clamping of n","circular_buffer::insert(pos,n,item), insert(range)"),("shift and fill","circular_buffer::insert_n / rinsert_n"),("element-wise insertion of input ranges","circular_buffer::insert / rinsert (input_iterator_tag)")],ST)
p("C04","Erasure removes exactly the named elements and returns the right successor",
 "erase and rerase (one element or a range), erase_begin, erase_end and clear remove exactly the designated elements and keep all others in order, leaving the capacity unchanged. erase returns an iterator to the first element remaining after the removed ones (or end()); rerase returns an iterator to the last element remaining in front of the removed ones (or begin() if there is none). Erasing an empty range changes nothing.",
 ["inputs","histories"],"every capacity, start offset, size, position or subrange, for scalar and class element types",
 "Tests erase fixed subranges of fixed buffers; constant-time scalar paths and wrap-around erasure have position-dependent arithmetic.",
 [B],[("erase towards the end","circular_buffer::erase"),("erase towards the beginning","circular_buffer::rerase"),("constant-time removal","circular_buffer::erase_begin / erase_end")],ST)
p("C05","Indexing, at(), front/back and all iterator arithmetic describe one sequence",
 "For every buffer state, operator[], at, front, back, forward, reverse and const iteration and iterator +, -, +=, -=, [], ++, -- designate the same elements in the same order, and iterator differences and orderings equal the differences and orderings of positions, end() included. at(i) throws std::out_of_range exactly when i >= size() for every i of the size type.",
 ["inputs","histories"],"every capacity, start offset, size; every pair of positions in [0,size]; every 64-bit index for at()",
 "The identities relate all pairs of positions in all layouts; tests check a few literals.",
 [B,D],[("position mapping","cb_details::iterator::linearize_pointer, operator+=, operator-="),("ring add/sub","circular_buffer::add / sub"),("bounds check","circular_buffer::check_position")],ST)
p("C06","Array ranges and linearize expose exactly the stored sequence contiguously",
 "array_one() followed by array_two() is exactly the stored sequence, each part being contiguous storage of this buffer. linearize() keeps the sequence, size and capacity, allocates nothing, and returns a pointer from which all elements are contiguous (null when empty). is_linearized() of a non-empty buffer is true exactly when the elements are stored at increasing addresses, and linearize() moves nothing when they already are.",
 ["inputs","histories"],"every capacity, start offset, size and element values, scalar and class elements",
 "The in-place rotation in linearize takes different cycle structures for each offset/size pair; tests list some.",
 [B],[("in-place cyclic rotation","circular_buffer::linearize"),("contiguous parts","circular_buffer::array_one / array_two"),("is_linearized","circular_buffer::is_linearized")],ST)
p("C07","rotate makes the chosen element first and preserves cyclic order",
 "After rotate(it) the element it designated is the first one and the elements that preceded it follow the former last element in their old order. Size and capacity are unchanged, and a full buffer is rotated without touching any element.",
 ["inputs","histories"],"every capacity, start offset, size, position and values",
 "Direction choice and the not-full path depend on position and fill level; tests use one buffer.",
 [B],[("pointer rotation when full, element moves otherwise","circular_buffer::rotate")],ST)
p("C08","Capacity and size changes keep the promised end of the sequence",
 "set_capacity(n) yields capacity n and keeps the first min(n,size) elements; rset_capacity(n) keeps the last ones. resize(n,x) yields size n by removing last elements or appending copies of x, growing the capacity only when n exceeds it; rresize does the same at the front. All surviving elements keep value and order.",
 ["inputs","histories"],"every capacity, start offset, size, new capacity/size and values",
 "Tests use a few (old,new) pairs in one layout.",
 [B],[("reallocate and transfer","circular_buffer::set_capacity / rset_capacity / reset"),("resize","circular_buffer::resize / rresize")],ST)
p("C09","Construction, assignment and copying produce exactly the specified content",
 "Every constructor and every assign overload yields exactly the specified content, size and capacity: n copies, the whole range, or the last capacity-many elements of a longer range, for random-access and single-pass iterators. Copies equal their source in content, order and capacity, are independent of it, and leave it unchanged; self-assignment changes nothing.",
 ["inputs","histories"],"every source layout and target layout, counts, capacities, range lengths and categories",
 "Source-layout x target-layout x count combinations are quadratic in layouts; tests use unwrapped sources.",
 [B,D],[("construction from ranges","circular_buffer::initialize overloads"),("assignment","circular_buffer::assign_n / operator="),("element copy","cb_details::uninitialized_copy")],ST)
p("C10","Move and swap transfer contents wholesale and never duplicate or lose elements",
 "Move construction and move assignment give the target exactly the source's former sequence and capacity and leave the source empty and usable; swap exchanges content, capacity and allocator of the two buffers. None of them copies, moves, creates or destroys any transferred element, and references to elements (and, without debug support, iterators) keep designating the same elements afterwards.",
 ["inputs","histories"],"every pair of layouts of the two buffers, stateless and stateful allocators, self-swap",
 "Pairs of layouts and stateful allocators are not covered by tests.",
 [B,S],[("member-wise swap","circular_buffer::swap / swap_allocator"),("move operations","circular_buffer(circular_buffer&&), operator=(circular_buffer&&)")],ST)
p("C11","Comparison depends only on the element sequence and is a consistent order",
 "== and < on two buffers equal element-wise equality and lexicographical order of their sequences, whatever their capacities and physical layouts. !=, >, <= and >= are consistent with them for every pair.",
 ["inputs"],"every pair of capacities, layouts, sizes and values, both buffer classes",
 "All pairs of sequences and layouts; tests compare a few literals.",
 [B,S],[("comparison operators","operator==, operator<, !=, >, <=, >=")],ST)
p("C12","Each element is created and destroyed exactly once, never used outside its life",
 "Across any operation, construction only happens on storage holding no live element, assignment, reading and destruction only on live elements, and exactly size() live elements remain in the buffer's storage. When the buffer is destroyed or its storage replaced, every element it held has been destroyed exactly once and its storage returned.",
 ["inputs","histories"],"every operation of both classes from every capacity, start offset and size, with arbitrary positions and counts",
 "Tests count instances in one scenario; double construction, leak or use of a dead slot depends on layout.",
 [B,D,S],[("construct vs assign decision","circular_buffer::construct_or_replace / is_uninitialized"),("destruction","circular_buffer::destroy_item / destroy_content / destroy")],ST)
p("C13","If an element operation throws, the buffer stays valid and nothing leaks",
 "If any element copy, move, assignment or default construction, or the allocation, throws at any point of any operation, the exception propagates, every live element in the buffer's storage belongs to its sequence, no element is leaked, double-destroyed or created twice, and no storage leaks. The buffer still has size() <= capacity(), can be read, modified and destroyed normally. This covers constructors, which must release everything.",
 ["fault_sequences","inputs","histories"],"every throw point (k-th throwing operation) of every operation, from every layout, position and count",
 "Tests throw at a few points in a few fixed layouts and mostly only check that nothing crashes.",
 [B,D],[("rollback of partial work","catch blocks in insert_n, rinsert_n, insert_item, rinsert_impl, linearize, assign_n, initialize"),("rollback helpers","cb_details::uninitialized_copy / uninitialized_fill_n_with_alloc")],ST)
p("C14","Capacity changes and copy assignment are all-or-nothing under exceptions",
 "If set_capacity, rset_capacity or copy assignment of either class throws, the target buffer's elements, order, size, capacity (and minimum capacity) and storage are exactly as before the call. The same holds for push_back and push_front of a circular_buffer that is not full.",
 ["fault_sequences","inputs"],"every throw point including the allocation, every layout, old and new capacity",
 "The guarantee quantifies over throw points and layouts; tests do not compare full state after the throw.",
 [B,D],[("build aside, then commit","circular_buffer::set_capacity, rset_capacity, operator=, reset"),("cursor rollback","circular_buffer::push_front_impl")],ST)
p("C15","Storage is requested and returned in matched pairs, only where documented",
 "Every storage block is returned exactly once, to an allocator equal to the one it came from and with exactly the size it was requested with, on normal and exceptional paths alike. circular_buffer requests storage only in constructors, copying, assign, set_capacity, rset_capacity and growing resize/rresize; all other operations request and release none. Requesting a capacity above max_size() throws std::length_error and changes nothing.",
 ["inputs","histories","fault_sequences","configurations"],"every operation and layout, stateful allocators, throw points, every 64-bit capacity request",
 "Tests use std::allocator, which ignores the size argument.",
 [B],[("allocation gate","circular_buffer::allocate / deallocate / initialize_buffer"),("allocator exchange","circular_buffer::swap_allocator")],ST)
p("C16","The space-optimized buffer behaves like the plain buffer of equal capacity",
 "For every operation both classes offer, a circular_buffer_space_optimized with capacity c holds the same sequence, size and capacity and returns equivalent positions and results as a circular_buffer of capacity c given the same content and arguments. The amount of memory it currently has allocated never influences the content. This includes every 64-bit count argument and single-pass ranges.",
 ["inputs","histories"],"every capacity, min_capacity, allocated amount, layout, content and arguments",
 "Equivalence must hold for all allocated amounts between minimum and capacity; tests run the same fixed scripts.",
 [S,B],[("grow before inserting, shrink after removing","circular_buffer_space_optimized::check_low_capacity / check_high_capacity"),("position preservation across reallocation","circular_buffer_space_optimized::insert / rinsert / erase / rerase")],
 [("capacity controller","logical capacity and minimum allocation",S)])
p("C17","Space-optimized memory stays within [min_capacity, capacity] and keeps all data",
 "The allocated amount of a circular_buffer_space_optimized always holds all its elements and never exceeds capacity(); apart from copy and move (which take over the other buffer's minimum), operations never leave it below min_capacity(). Removing elements down to few eventually releases memory, alternating one push and one pop at a fixed non-zero size below capacity() does not reallocate every time, and reserve() and full() always reflect capacity(), not the allocated amount. Growth for an insertion works for every 64-bit count.",
 ["inputs","histories"],"every capacity, min_capacity (64-bit where no allocation of that size is needed), allocated amount, size and count",
 "Growth arithmetic (doubling, thirds, fifths) has boundary cases tests do not enumerate.",
 [S],[("predictive growth and shrink","circular_buffer_space_optimized::ensure_reserve / check_low_capacity / check_high_capacity / adjust_min_capacity")],
 [("capacity controller","logical capacity and minimum allocation",S)])
p("C18","A throw inside a space-optimized buffer leaves it valid and within capacity",
 "If an element operation or an allocation throws inside any circular_buffer_space_optimized operation, no element or storage leaks, each element in its storage is alive exactly once, and size() <= capacity().capacity() still holds; the buffer remains fully usable.",
 ["fault_sequences","inputs","histories"],"every throw point incl. reallocation failure, every operation, layout, capacity and allocated amount",
 "Tests never inject faults into the space-optimized class.",
 [S,B],[("order of reallocation, mutation and capacity update","circular_buffer_space_optimized member functions")],
 [("capacity controller","logical capacity and minimum allocation",S)])
p("C19","Debug support never changes results and never alarms on correct use",
 "With debug support enabled, every operation used within its preconditions produces the same content, return positions and sizes as without it, and no debug assertion fires. Iterators documented to stay valid remain accepted, including copies, assignments and iterators outliving the buffer.",
 ["inputs","histories","configurations"],"every operation and layout with a population of live iterators at arbitrary positions",
 "Debug builds are tested with fixed scripts; registry list surgery depends on which iterators are alive in which order.",
 [G,D,B],[("iterator registry","cb_details::debug_iterator_registry / debug_iterator_base"),("assertions","BOOST_CB_ASSERT uses")],
 [("iterator registry list","live iterators of a buffer",G)])
p("C20","Debug support catches every invalidated-iterator use and broken precondition",
 "With debug support enabled, dereferencing, moving, comparing or passing to an operation any iterator that the documentation says was invalidated, as well as front/back/pop on an empty buffer, an out-of-range operator[], dereferencing end(), moving past either end, or an inverted range, triggers the debug assertion before any element is accessed through the misused iterator, index or range.",
 ["inputs","histories"],"every layout, position, operation and iterator population",
 "Only some invalidations are tested for one layout.",
 [G,D,B],[("invalidation on destroy/overwrite","circular_buffer::replace / destroy_item, debug_iterator_registry::invalidate_iterators"),("validity checks","iterator operators and operation entry checks")],
 [("iterator registry list","live iterators of a buffer",G)])
p("C21","Iterators and references to elements not affected by an operation stay valid",
 "After an operation, every iterator and reference that the documentation does not declare invalidated still designates the same element with the same value at the same address: all of them after push on a non-full buffer, all but those to removed elements after pops and erase_begin/erase_end, those before the insertion or erasure point for insert/erase, those at or after it for rinsert/rerase, all after rotate of a full buffer. Iterators equal to end() stay equal to end().",
 ["inputs","histories"],"every layout, operation, position and every surviving element",
 "Address stability of each element under each operation and layout is not enumerated by tests.",
 [B,D],[("shift direction","insert shifts the tail, rinsert the head"),("end() as a layout-independent marker","cb_details::iterator with null position")],ST)
p("C22","Read-only operations write nothing, so concurrent readers are safe",
 "No const member function, const iterator operation or comparison of either class (debug support off) modifies the buffer object, its storage or any shared state. Hence any number of threads may read a shared buffer concurrently.",
 ["schedules","inputs"],"every const operation, every layout and argument",
 "A write in a read path shows only as a data race; no test looks for it.",
 [B,D,S],[("const accessors and iterators","circular_buffer const members, cb_details::iterator")],ST)
p("C23","Element operations stay within the documented complexity",
 "push and pop perform at most one element construction, assignment or destruction each on the buffer's elements (plus the temporary of the default-value overloads), rotate of a full buffer, swap, move and all observers perform none, erase_begin, erase_end and clear perform none for scalars. insert/erase touch only the elements on the documented side of the position, linearly many; set_capacity transfers each kept element once; linearize does linear work. (Ranges given by single-pass iterators are excluded: the insertion is element-wise.)",
 ["inputs","histories"],"every layout, operation, position and count",
 "Tests measure results, not the number of element operations.",
 [B],[("single-slot operations","push_*_impl, pop_*"),("directional shifts","insert_item, rinsert_impl, erase, rerase")],ST)
p("C24","Elements are moved, not copied, exactly when moving is safe",
 "For element types whose moves cannot throw, no existing element is ever copied by insertion of an rvalue, erasure, rotation, linearization or a capacity change, and move-only types can be used with them. For copyable types whose move may throw, existing elements are copied and never moved from by those operations, so an exception cannot leave moved-from elements in the sequence.",
 ["inputs","configurations","fault_sequences"],"element type classes (nothrow-move, throwing-move copyable, move-only) x layouts x positions x throw points",
 "Tests count moves in a few unwrapped scenarios.",
 [B,D],[("move_if_noexcept","boost::move_if_noexcept uses"),("bulk transfer","cb_details::uninitialized_move_if_noexcept")],ST)
p("C25","Operations documented as no-throw never throw, terminate or allocate",
 "pop_back, pop_front, clear, swap, move construction and assignment, default construction, destruction, all observers and iterator operations of circular_buffer never throw and never request storage, even when every element copy, move or assignment and every allocation would throw. rotate of a full buffer never throws either.",
 ["fault_sequences","inputs"],"every layout with all element operations and allocations armed to fail",
 "A no-throw promise is universal over states and faults.",
 [B],[("noexcept operations","members documented No-throw")],ST)
p("C26","Any sequence of operations keeps the buffer equal to a plain bounded sequence",
 "Starting from any buffer state, every sequence of operations leaves the buffer's observable sequence, size and capacity equal to those of a simple bounded sequence given the same operations. In particular no operation leaves hidden state behind that makes a later operation misbehave.",
 ["histories","inputs"],"all operation sequences of bounded length with symbolic operation choice and arguments, from every layout; each step re-establishes the state invariant",
 "The space of histories is exponential; tests run a few scripts.",
 [B,D],[("state invariant re-established by every operation","all mutating members")],ST)
p("C27","Position arithmetic is correct for every capacity the address space allows",
 "For any capacity whose storage the address space can hold (up to 2^60 bytes), any start offset, size and index, element addresses, iterator advances and differences, array ranges, back(), rotation of a full buffer and constant-time end removal compute the exact ring positions without overflow.",
 ["inputs"],"every 64-bit capacity, offset, size, index for element sizes 1, 4 and 24 bytes (no element storage is touched)",
 "Tests cannot allocate such buffers; arithmetic is only exercised with tiny values.",
 [B,D],[("ring arithmetic","circular_buffer::add / sub / increment / decrement, iterator::linearize_pointer")],ST)
p("C28","Inserting a reference to one of the buffer's own elements inserts its old value",
 "push_back, push_front, insert and rinsert (single or n copies), resize and rresize, when given a const reference to an element stored in the same buffer, insert the value that element had before the call, as for any standard sequence container. This also holds when the operation shifts, overwrites or reallocates.",
 ["inputs","histories"],"every layout, position, source index and count, both classes",
 "No test passes an element of the buffer itself.",
 [B,S],[("argument taken by reference","push_*_impl, insert_item, rinsert_impl, insert_n, rinsert_n, check_low_capacity")],ST)
p("C29","Debug builds fill storage that holds no element with the uninitialized pattern",
 "With debug support enabled, every byte of buffer storage that holds no element has the value 0xCC (cb_details::UNINITIALIZED) after every operation: fresh storage, removed elements and the slots elements were moved out of. Elements themselves are never overwritten by the pattern.",
 ["inputs","histories"],"every operation, layout, position and count",
 "Tests look at one removed element of one buffer.",
 [B,D,G],[("filling of fresh storage and destroyed slots","circular_buffer::allocate / destroy_item, cb_details::do_fill_uninitialized_memory")],ST)
p("C30","Allocators with class-type pointers give the same results as raw pointers",
 "With an allocator whose pointer type is a class (such as boost::interprocess::offset_ptr, for buffers in shared memory), every operation of both classes can be used and gives exactly the documented content, size, capacity, returned position and array ranges, with the same element lifetimes, for every state and argument. Pointers are only ever copied as objects, never bitwise.",
 ["inputs","histories","configurations"],"every operation, layout, position and argument; boost::interprocess::offset_ptr and a self-relative pointer written for the purpose; debug support off (as documented)",
 "No test instantiates the buffer with a pointer type other than T*.",
 [B,D,S],[("pointer type taken from the allocator","circular_buffer::pointer, allocator_pointer, allocator_const_pointer"),("raw pointer for construction","boost::to_address at every allocator_construct / allocator_destroy call"),("pointer constness in rotate","circular_buffer::rotate")],ST)
p("C31","Stored elements are created and destroyed only through the allocator",
 "Every element created in a buffer's storage is created by exactly one call of the allocator's construct for that address, and every element destroyed there by exactly one call of its destroy, in every operation of both classes, also when an exception is thrown. So allocators that construct elements specially (scoped or counting allocators) see all of them.",
 ["inputs","histories","fault_sequences","configurations"],"every operation, layout, position, count and throw point, with an allocator that has construct and destroy",
 "Tests use allocators without construct and destroy, for which bypassing them is invisible.",
 [B,D],[("construction through the allocator","boost::allocator_construct calls in push_*_impl, construct_or_replace, uninitialized_copy, uninitialized_fill_n_with_alloc"),("destruction through the allocator","circular_buffer::destroy_item, rollback in uninitialized_copy")],ST)
p("C32","Standard algorithms on the iterators work as on a plain array",
 "Applying a standard algorithm (sorting, searching, reversing, rotating, partitioning, removing, moving, heap operations) to any subrange given by a buffer's iterators changes exactly that subrange and gives the same content and the same returned position as on a plain array holding the same elements, for mutable, constant and reverse iterators, both classes, with and without debug support.",
 ["inputs","histories","configurations"],"every layout, subrange, element values and pivot; 18 algorithms of the C++ library",
 "Tests call a few algorithms on one or two layouts; algorithms take data-dependent paths that use all iterator operations.",
 [B,D],[("random access iterator","cb_details::iterator"),("ring stepping and distance","circular_buffer::add / sub, iterator::linearize_pointer")],ST)
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P:
    jsonschema.validate(d,sch); assert len(d["title"])<=80,(d["id"],len(d["title"]))
    n=d["statement"].count(". ")+1
    print(d["id"],n,len(d["title"]))
