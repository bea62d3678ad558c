From ba25ecb587956b8a98cb8e414d44a5fe196970fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:05 +0000
Subject: [PATCH 01/41] fix: boost routing searched the occupied tiles instead
 of the free ones

The edge set joined free tiles to occupied ones, so the route search could
neither cross two free tiles nor respect the target's boundary type, it
indexed the predecessor map out of range for a twist, and its edges had no
weights. Join free tiles to free tiles, reach the target only through a
boundary of the requested type, and give every edge unit weight.
---
 .../graph_search/boost_based_graph_search.cpp | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/layout/graph_search/boost_based_graph_search.cpp b/src/layout/graph_search/boost_based_graph_search.cpp
index d5e2999..bbe2706 100644
--- a/src/layout/graph_search/boost_based_graph_search.cpp
+++ b/src/layout/graph_search/boost_based_graph_search.cpp
@@ -61,7 +61,7 @@ std::optional<RoutingRegion> graph_search_route_ancilla(
         {
             Cell current{row_idx, col_idx};
             vertices.push_back(make_vertex(current));
-            if (!slice.is_cell_free(current))
+            if (slice.is_cell_free(current))
                 for (const Cell& neighbour: current.get_neigbours_within_bounding_box_inclusive({0, 0}, furthest_cell))
                     if (slice.is_cell_free(neighbour))
                         edges.emplace_back(make_vertex(neighbour), make_vertex(current));
@@ -69,18 +69,23 @@ std::optional<RoutingRegion> graph_search_route_ancilla(
         }
     }
 
-    // Add source
     const auto source_cell = *slice.get_cell_by_id(source);
+    const auto target_cell = *slice.get_cell_by_id(target);
+
+    // Add source
     for (Cell neighbour: slice.get_neigbours_within_slice(source_cell))
     {
-        if (slice.have_boundary_of_type_with(source_cell, neighbour, source_op))
+        if (!slice.have_boundary_of_type_with(source_cell, neighbour, source_op))
+            continue;
+
+        const bool matches_adjacent_target = neighbour==target_cell
+                && slice.have_boundary_of_type_with(target_cell, source_cell, target_op);
+        if (slice.is_cell_free(neighbour) || matches_adjacent_target)
             edges.emplace_back(make_vertex(source_cell), make_vertex(neighbour));
 
     }
 
     // Add target
-    const auto target_cell = *slice.get_cell_by_id(target);
-
     // This means we are trying to do an S-gate/twist measurement so we artificially add a new source coinciding
     // with the existing one
     Vertex target_vertex =
@@ -88,11 +93,14 @@ std::optional<RoutingRegion> graph_search_route_ancilla(
 
     for (Cell neighbour: slice.get_neigbours_within_slice(target_cell))
     {
-        if (slice.have_boundary_of_type_with(target_cell, neighbour,target_op))
+        if (slice.is_cell_free(neighbour) && slice.have_boundary_of_type_with(target_cell, neighbour,target_op))
             edges.emplace_back(make_vertex(neighbour), target_vertex);
     }
 
-    Graph g{edges.begin(), edges.end(), vertices.size()};
+    if (target==source) vertices.push_back(target_vertex);
+
+    const std::vector<int> weights(edges.size(), 1);
+    Graph g{edges.begin(), edges.end(), weights.begin(), vertices.size()};
 
     property_map<Graph, vertex_predecessor_t>::type p
             = get(vertex_predecessor, g);
-- 
2.43.0


From c9e3a0c897b2a3eb1e7c79e29f30c32a5da3e12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:58 +0000
Subject: [PATCH 02/41] fix: a rotation did not wait for the merge its patch
 takes part in

---
 src/patches/dense_patch_computation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index da43fae..e029d15 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1257,6 +1257,9 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
             return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", rotation->target, " not on lattice")), {}};
         const Cell target_cell = *slice.get_cell_by_id(rotation->target);
 
+        if (slice.patch_at(target_cell)->activity != PatchActivity::Unitary && slice.patch_at(target_cell)->is_active())
+            return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", rotation->target, " is active")), {}};
+
         std::optional<Cell> free_neighbour;
 
         for (auto neighbour_cell: slice.get_neigbours_within_slice(target_cell))
-- 
2.43.0


From bc1196a5be4d35cd9bdb24816f2248e49f55e030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:58 +0000
Subject: [PATCH 03/41] fix: the wave scheduler read dependents of an
 instruction after they were moved

---
 src/scheduler/wave_scheduler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scheduler/wave_scheduler.cpp b/src/scheduler/wave_scheduler.cpp
index 1b2300b..c04123f 100644
--- a/src/scheduler/wave_scheduler.cpp
+++ b/src/scheduler/wave_scheduler.cpp
@@ -173,7 +173,8 @@ size_t WaveScheduler::schedule_instructions(const std::vector<InstructionID>& in
 	
 void WaveScheduler::schedule_dependent_instructions(InstructionID instruction_id, const std::vector<LSInstruction>& followup_instructions, DenseSlice& slice, LSInstructionVisitor instruction_visitor, DensePatchComputationResult& res, bool proximate)
 {
-	auto& dependents = records_[instruction_id].dependents;
+	// A copy, because scheduling a dependent may grow records_
+	const auto dependents = records_[instruction_id].dependents;
 	
 	if (followup_instructions.empty())
 	{
-- 
2.43.0


From d2eaea64f38db0c0e674a82d17b6abfdbed1144c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 04/41] fix: placement next to a patch did not wait for earlier
 instructions on that patch when read from text

---
 src/ls_instructions/ls_instructions_parse.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ls_instructions/ls_instructions_parse.cpp b/src/ls_instructions/ls_instructions_parse.cpp
index 27f2e77..8a402d8 100644
--- a/src/ls_instructions/ls_instructions_parse.cpp
+++ b/src/ls_instructions/ls_instructions_parse.cpp
@@ -67,7 +67,9 @@ LSInstruction parse_ls_instruction(std::string_view line)
             place_next_to = PlaceNexTo{parse_patch_id(placement_info.at(0)),PauliOperator_from_string(placement_info.at(1))}; 
         }
 
-        return {.operation = PatchInit{patch_id, state, place_next_to}, .clients = {patch_id}};
+        LSInstruction init{.operation = PatchInit{patch_id, state, place_next_to}};
+        if(place_next_to) init.clients.insert(place_next_to->target);
+        return init;
     }
     else if(instruction == "MeasureSinglePatch" || instruction == "1")
     {
@@ -84,7 +86,7 @@ LSInstruction parse_ls_instruction(std::string_view line)
     {
         auto target = parse_patch_id(get_next_arg());
         auto near_patch = parse_patch_id(get_next_arg());
-        return {MagicStateRequest{target, near_patch}, MagicStateRequest::DEFAULT_WAIT};
+        return {MagicStateRequest{target, near_patch}, MagicStateRequest::DEFAULT_WAIT, {near_patch}};
     }
     else if (instruction == "LogicalPauli" || instruction == "4")
     {
@@ -133,7 +135,7 @@ LSInstruction parse_ls_instruction(std::string_view line)
     {
         auto target = parse_patch_id(get_next_arg());
         auto near_patch = parse_patch_id(get_next_arg());
-        return {YStateRequest{target, near_patch}, YStateRequest::DEFAULT_WAIT};
+        return {YStateRequest{target, near_patch}, YStateRequest::DEFAULT_WAIT, {near_patch}};
     }
     else if (instruction == "BellBasedCNOT" || instruction == "10")
     {
-- 
2.43.0


From 3a4302fd157d4483b44b5a12e402fd3a727673bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:26 +0000
Subject: [PATCH 05/41] fix: a reserved tile spawned a magic state over a patch
 rotating on it

---
 src/patches/dense_patch_computation.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index e029d15..bf6f048 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -130,8 +130,7 @@ void advance_slice(DenseSlice& slice, const Layout& layout)
 
             if (slice.time_to_next_magic_state_by_distillation_region[reserved_cell_index] == 0)
             {
-                if ((slice.patch_at(cell)->type != PatchType::PreparedState) &&
-                    (slice.patch_at(cell)->type != PatchType::Qubit))
+                if (slice.patch_at(cell)->type == PatchType::Distillation)
                 {
                     SparsePatch magic_state_patch = LayoutHelpers::basic_square_patch(cell, std::nullopt, "Magic State");
                     magic_state_patch.type = PatchType::PreparedState;
-- 
2.43.0


From 561838a8a2b243519662025c23b1e67ac6568a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 06/41] fix: releasing a prepared Y state counted as a
 predistilled one becoming available

---
 src/patches/dense_patch_computation.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index bf6f048..faa66cc 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1321,8 +1321,11 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
         // Unbind Y state patch if already bound
         if (slice.get_patch_by_id(yr->target))
         {
-            slice.get_patch_by_id(yr->target)->get().id = std::nullopt;
-            slice.predistilled_ystates_available++;
+            const Cell released_cell = slice.get_cell_by_id(yr->target).value();
+            slice.patch_at(released_cell)->id = std::nullopt;
+            const auto& predistilled = layout.predistilled_y_states();
+            if (std::find(predistilled.begin(), predistilled.end(), released_cell) != predistilled.end())
+                slice.predistilled_ystates_available++;
             return{nullptr, {}};
         }
 
-- 
2.43.0


From e1d086624a467308f51eaa893619b1ad8c8e2b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 07/41] fix: a Y state request read the tile of a Y state that
 was already consumed

---
 src/patches/dense_patch_computation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index faa66cc..7643d7f 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1345,7 +1345,8 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
                 double dist;
                 for (const Cell& cell : layout.predistilled_y_states())
                 {
-                    if (!slice.patch_at(cell)->id.has_value() && !slice.patch_at(cell)->is_active())
+                    const auto& y_state = slice.patch_at(cell);
+                    if (y_state && y_state->type == PatchType::Qubit && !y_state->id.has_value() && !y_state->is_active())
                     {
                         dist = abs(cell.col - slice.get_cell_by_id(yr->near_patch).value().col) + abs(cell.row - slice.get_cell_by_id(yr->near_patch).value().row);
                         if (dist < min_dist)
-- 
2.43.0


From fd8816c18530b9709cf55bbeed4ea2fc5929c205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:58 +0000
Subject: [PATCH 08/41] fix: the qubits a reset operates on were not known, so
 building the dependency graph of a circuit with a reset failed

---
 src/gates/gates.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gates/gates.cpp b/src/gates/gates.cpp
index f22577f..a549bf0 100644
--- a/src/gates/gates.cpp
+++ b/src/gates/gates.cpp
@@ -169,6 +169,9 @@ tsl::ordered_set<QubitNum> get_operating_qubits(const Gate& gate)
                 }
             }, g.target_gate);
         },
+        [&](const Reset& reset){
+            res.insert(reset.target_qubit);
+        },
         [&](const auto&){
             LSTK_UNREACHABLE;
         }
-- 
2.43.0


From f6ff62fca890df17faa624d75e63b083ae8dd991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:49 +0000
Subject: [PATCH 09/41] fix: instruction text was misread or accepted when
 malformed, and printed instructions could not be read back

Surplus arguments, trailing garbage after patch ids, patches given twice and empty entries were ignored; a Bell pair
with a single location read past the end; signs were lost; X/Y/Z gates and resets were printed under names the parser
does not know.
---
 .../ls_instructions/ls_instructions_parse.hpp |   2 +
 src/ls_instructions/ls_instruction_stream.cpp |   4 +-
 src/ls_instructions/ls_instructions_parse.cpp | 112 +++++++++++++-----
 src/ls_instructions/parse_utils.cpp           |   4 +-
 4 files changed, 89 insertions(+), 33 deletions(-)

diff --git a/include/lsqecc/ls_instructions/ls_instructions_parse.hpp b/include/lsqecc/ls_instructions/ls_instructions_parse.hpp
index 8a85de7..d90c379 100644
--- a/include/lsqecc/ls_instructions/ls_instructions_parse.hpp
+++ b/include/lsqecc/ls_instructions/ls_instructions_parse.hpp
@@ -14,6 +14,8 @@ struct InstructionParseException : public std::runtime_error
 
 LSInstruction parse_ls_instruction(std::string_view line);
 
+bool is_blank_ls_instruction_line(std::string_view line);
+
 InMemoryLogicalLatticeComputation parse_ls_instructions(std::string_view source);
 
 }
diff --git a/src/ls_instructions/ls_instruction_stream.cpp b/src/ls_instructions/ls_instruction_stream.cpp
index a72b382..54da71f 100644
--- a/src/ls_instructions/ls_instruction_stream.cpp
+++ b/src/ls_instructions/ls_instruction_stream.cpp
@@ -12,13 +12,13 @@ using namespace std::string_literals;
 void LSInstructionStreamFromFile::advance_instruction()
 {
     std::string line;
-    while(!instructions_file_.eof() && line.size() ==0)
+    while(!instructions_file_.eof() && is_blank_ls_instruction_line(line))
     {
         std::getline(instructions_file_, line);
         line_number_++;
     }
 
-    if(line.size()==0)
+    if(is_blank_ls_instruction_line(line))
     {
         next_instruction_ = std::nullopt;
         return;
diff --git a/src/ls_instructions/ls_instructions_parse.cpp b/src/ls_instructions/ls_instructions_parse.cpp
index 8a402d8..b47b3c7 100644
--- a/src/ls_instructions/ls_instructions_parse.cpp
+++ b/src/ls_instructions/ls_instructions_parse.cpp
@@ -11,18 +11,54 @@
 namespace lsqecc {
 
 
+// As lstk::split_on, but an empty last entry is an error rather than ignored
+static std::vector<std::string_view> split_entries(std::string_view arg, char delim)
+{
+    if (arg.empty() || arg.back() == delim)
+        throw InstructionParseException{std::string{"Empty entry in: "}+std::string{arg}};
+    return lstk::split_on(arg, delim);
+}
+
+static PlaceNexTo parse_place_next_to(std::string_view arg)
+{
+    auto placement_info = split_entries(arg, ':');
+    if (placement_info.size()!=2)
+        throw InstructionParseException{std::string{"Placement not in patch:operator format: "}+std::string{arg}};
+    return PlaceNexTo{parse_patch_id(placement_info[0]), PauliOperator_from_string(placement_info[1])};
+}
+
+static bool consume_minus_sign(std::string_view& arg)
+{
+    bool is_negative = !arg.empty() && arg.front() == '-';
+    if (is_negative) arg.remove_prefix(1);
+    return is_negative;
+}
+
+static std::string_view trim_trailing_whitespace(std::string_view line)
+{
+    while (!line.empty() && (line.back() == ' ' || line.back() == '\t' || line.back() == '\r'))
+        line.remove_suffix(1);
+    return line;
+}
+
+bool is_blank_ls_instruction_line(std::string_view line)
+{
+    return trim_trailing_whitespace(line).empty();
+}
+
 tsl::ordered_map<PatchId, PauliOperator> parse_multi_body_measurement_dict(std::string_view dict_arg)
 {
-    auto dict_pairs = lstk::split_on(dict_arg, ',');
+    auto dict_pairs = split_entries(dict_arg, ',');
     tsl::ordered_map<PatchId, PauliOperator> ret;
 
     for (auto pair: dict_pairs)
     {
-        auto assoc = lstk::split_on(pair, ':');
+        auto assoc = split_entries(pair, ':');
         if (assoc.size()!=2)
             throw InstructionParseException{std::string{"MultiBody dict_pairs not in key pair format:"}+std::string{pair}};
 
-        ret.insert_or_assign(parse_patch_id(assoc[0]), PauliOperator_from_string(assoc[1]));
+        if (!ret.insert({parse_patch_id(assoc[0]), PauliOperator_from_string(assoc[1])}).second)
+            throw InstructionParseException{std::string{"MultiBody patch given twice:"}+std::string{pair}};
     }
     return ret;
 }
@@ -30,7 +66,7 @@ tsl::ordered_map<PatchId, PauliOperator> parse_multi_body_measurement_dict(std::
 tsl::ordered_set<PatchId> parse_patch_id_list(std::string_view arg)
 {
     tsl::ordered_set<PatchId> ret;
-    auto entries = lstk::split_on(arg, ',');
+    auto entries = split_entries(arg, ',');
     for(auto e : entries)
     {
         ret.insert(parse_patch_id(e));
@@ -38,12 +74,11 @@ tsl::ordered_set<PatchId> parse_patch_id_list(std::string_view arg)
     return ret;
 }
 
-LSInstruction parse_ls_instruction(std::string_view line)
+static LSInstruction parse_ls_instruction_args(
+    std::vector<std::string_view>::const_iterator& args_itr,
+    const std::vector<std::string_view>::const_iterator args_end)
 {
-    auto args = lstk::split_on(line,' ');
-    auto args_itr = args.begin();
-
-    auto has_next_arg = [&](){return args_itr<args.end();};
+    auto has_next_arg = [&](){return args_itr<args_end;};
     auto get_next_arg = [&](){
         if(!has_next_arg())
             throw InstructionParseException{"Out of arguments"};
@@ -63,8 +98,7 @@ LSInstruction parse_ls_instruction(std::string_view line)
         std::optional<PlaceNexTo> place_next_to;
         if(has_next_arg())
         {
-            auto placement_info = lstk::split_on(get_next_arg(),':');
-            place_next_to = PlaceNexTo{parse_patch_id(placement_info.at(0)),PauliOperator_from_string(placement_info.at(1))}; 
+            place_next_to = parse_place_next_to(get_next_arg());
         }
 
         LSInstruction init{.operation = PatchInit{patch_id, state, place_next_to}};
@@ -74,13 +108,15 @@ LSInstruction parse_ls_instruction(std::string_view line)
     else if(instruction == "MeasureSinglePatch" || instruction == "1")
     {
         auto patch_id = parse_patch_id(get_next_arg());
-        auto op = PauliOperator_from_string(get_next_arg());
-        return {SinglePatchMeasurement{patch_id,op,false}};
+        auto op_arg = get_next_arg();
+        bool is_negative = consume_minus_sign(op_arg);
+        return {SinglePatchMeasurement{patch_id,PauliOperator_from_string(op_arg),is_negative}};
     }
     else if (instruction == "MultiBodyMeasure" || instruction == "2")
     {
         auto patches_dict = get_next_arg();
-        return {MultiPatchMeasurement{parse_multi_body_measurement_dict(patches_dict)}};
+        bool is_negative = consume_minus_sign(patches_dict);
+        return {MultiPatchMeasurement{parse_multi_body_measurement_dict(patches_dict), is_negative}};
     }
     else if(instruction == "RequestMagicState" || instruction == "3")
     {
@@ -92,8 +128,26 @@ LSInstruction parse_ls_instruction(std::string_view line)
     {
         auto patch_id = parse_patch_id(get_next_arg());
         auto op = PauliOperator_from_string(get_next_arg());
+        if (op == PauliOperator::I)
+            throw InstructionParseException{"LogicalPauli needs one of X, Y or Z"};
         return {SingleQubitOp{patch_id, static_cast<SingleQubitOp::Operator>(op)}};
     }
+    else if (instruction == "XGate")
+    {
+        return {SingleQubitOp{parse_patch_id(get_next_arg()), SingleQubitOp::Operator::X}};
+    }
+    else if (instruction == "YGate")
+    {
+        return {SingleQubitOp{parse_patch_id(get_next_arg()), SingleQubitOp::Operator::Y}};
+    }
+    else if (instruction == "ZGate")
+    {
+        return {SingleQubitOp{parse_patch_id(get_next_arg()), SingleQubitOp::Operator::Z}};
+    }
+    else if (instruction == "Reset")
+    {
+        return {PatchReset{parse_patch_id(get_next_arg())}};
+    }
     else if (instruction == "HGate" || instruction == "5")
     {
         auto patch_id = parse_patch_id(get_next_arg());
@@ -114,21 +168,11 @@ LSInstruction parse_ls_instruction(std::string_view line)
         auto side1 = parse_patch_id(get_next_arg());
         auto side2 = parse_patch_id(get_next_arg());
         auto patches_dict = get_next_arg();
-        auto dict_pairs = lstk::split_on(patches_dict, ',');
         std::vector<PlaceNexTo> locs;
-        size_t counter = 0;
-        for (auto pair: dict_pairs) 
-        {
-            auto assoc = lstk::split_on(pair, ':'); 
-            if (assoc.size()!=2)
-                throw InstructionParseException{std::string{"BellPairInit dict_pairs not in key pair format:"}+std::string{pair}};
-
-            if (counter > 1) {
-                throw InstructionParseException{std::string{"BellPairInit more than two locations specified."}};
-            }
-            locs.push_back(PlaceNexTo{parse_patch_id(assoc[0]), PauliOperator_from_string(assoc[1])});
-            counter++;
-        }
+        for (auto pair: split_entries(patches_dict, ','))
+            locs.push_back(parse_place_next_to(pair));
+        if (locs.size() != 2)
+            throw InstructionParseException{std::string{"BellPairInit needs exactly two locations, got: "}+std::string{patches_dict}};
         return {BellPairInit{side1, side2, locs[0], locs[1]}};
     }      
     else if(instruction == "RequestYState" || instruction == "9")
@@ -151,6 +195,16 @@ LSInstruction parse_ls_instruction(std::string_view line)
     }
 }
 
+LSInstruction parse_ls_instruction(std::string_view line)
+{
+    const auto args = lstk::split_on(trim_trailing_whitespace(line),' ');
+    auto args_itr = args.begin();
+    LSInstruction instruction = parse_ls_instruction_args(args_itr, args.end());
+    if (args_itr != args.end())
+        throw InstructionParseException{std::string{"Surplus argument: "}+std::string{*args_itr}};
+    return instruction;
+}
+
 
 InMemoryLogicalLatticeComputation parse_ls_instructions(std::string_view source)
 {
@@ -160,7 +214,7 @@ InMemoryLogicalLatticeComputation parse_ls_instructions(std::string_view source)
     bool got_patch_id_list = false;
     for (auto line : view)
     {
-        if(!line.empty())
+        if(!is_blank_ls_instruction_line(line))
         {
             auto instruction = parse_ls_instruction(line);
             if(auto patch_declararion = std::get_if<DeclareLogicalQubitPatches>(&instruction.operation))
diff --git a/src/ls_instructions/parse_utils.cpp b/src/ls_instructions/parse_utils.cpp
index 4cac4e4..0db5fc8 100644
--- a/src/ls_instructions/parse_utils.cpp
+++ b/src/ls_instructions/parse_utils.cpp
@@ -10,9 +10,9 @@ namespace lsqecc
 
 PatchId parse_patch_id(const std::string_view & input)
 {
-    int out;
+    PatchId out;
     const std::from_chars_result result = std::from_chars(input.data(), input.data() + input.size(), out);
-    if(result.ec == std::errc::invalid_argument || result.ec == std::errc::result_out_of_range)
+    if(result.ec != std::errc{} || result.ptr != input.data() + input.size())
     {
         throw std::runtime_error(std::string{"Cannot parse patch id: "}+std::string{input});
     }
-- 
2.43.0


From 29d5f955539fbee0f472a37fadbe764fe9e1a292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:54 +0000
Subject: [PATCH 10/41] fix: a printed qubit declaration lost its first qubit

---
 include/lstk/lstk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lstk/lstk.hpp b/include/lstk/lstk.hpp
index 23f27c3..7e4c60f 100644
--- a/include/lstk/lstk.hpp
+++ b/include/lstk/lstk.hpp
@@ -258,7 +258,7 @@ std::string join(IterableOfStringifiables iterable_of_stringifiables, std::strin
     bool begin = true;
     for(const auto& v: iterable_of_stringifiables)
     {
-        if(begin) acc = v;
+        if(begin) acc = lstk::cat(v);
         else acc = lstk::cat(acc, separator, v);
         begin = false;
     }
-- 
2.43.0


From 2676ef2683b35ac7b554f128413e50fca269fc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:09 +0000
Subject: [PATCH 11/41] fix: OpenQASM statements with malformed, surplus or
 missing arguments were misread or crashed the parser

---
 src/gates/parse_gates.cpp | 243 +++++++++++++++++++++++---------------
 1 file changed, 151 insertions(+), 92 deletions(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index 268e548..5fe238b 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -4,7 +4,8 @@
 #include <iostream>
 #include <vector>
 #include <stdexcept>
-#include <iostream>
+#include <cctype>
+#include <utility>
 
 namespace lsqecc {
 
@@ -27,9 +28,14 @@ Integer try_parse_int(std::string_view sv)
 {
     std::string s{sv};
 
+    // strtol would skip leading spaces
+    if (!s.empty() && std::isspace(static_cast<unsigned char>(s.front())))
+        throw GateParseException(lstk::cat("Could not parse '", s, "'. Spaces before number"));
+
     errno = 0;
     char* endptr;
-    Integer res = std::strtol(s.c_str(), &endptr, 10);
+    const long parsed = std::strtol(s.c_str(), &endptr, 10);
+    const Integer res = static_cast<Integer>(parsed);
 
     if (errno != 0)
         throw GateParseException(lstk::cat("Could not parse ", s, "as string, strtol gave errno: ",
@@ -39,55 +45,103 @@ Integer try_parse_int(std::string_view sv)
     if (*endptr != '\0')
         throw GateParseException(lstk::cat("Could not parse ", s, ". Further characters after number"));
 
+    if (!std::in_range<Integer>(parsed))
+        throw GateParseException(lstk::cat("Could not parse ", s, ". Number out of range"));
+
 //    if(std::to_string(res) != s)
 //        throw GateParseException(std::string{"Could not parse "} + s + "as string, atol gave "+std::to_string(res));
     return res;
 }
 
+std::string_view trim(std::string_view s)
+{
+    while (!s.empty() && std::isspace(static_cast<unsigned char>(s.front())))
+        s.remove_prefix(1);
+    while (!s.empty() && std::isspace(static_cast<unsigned char>(s.back())))
+        s.remove_suffix(1);
+    return s;
+}
+
 Line split_instruction_and_args(std::string_view gate_str)
 {
+    const auto semicolon = gate_str.find(';');
+    auto annotation_line = (semicolon != std::string_view::npos) ? gate_str.substr(semicolon+1) : std::string_view();
+    gate_str = gate_str.substr(0, semicolon);
+
+    if (const auto after_semicolon = trim(annotation_line); !after_semicolon.empty() && !after_semicolon.starts_with("//"))
+        throw GateParseException(lstk::cat("Only a comment can follow a statement on the same line, got '", after_semicolon, "'"));
+    // Annotations end with the line or with the next semicolon
+    annotation_line = annotation_line.substr(0, annotation_line.find(';'));
+
     if(!lstk::contains(gate_str, ' '))
-        return {gate_str, {}};
-    
-    auto semicolon_split = lstk::split_on(gate_str, ';');
-    gate_str = semicolon_split.at(0);
-    auto annotation_line = (semicolon_split.size() > 1) ? semicolon_split.at(1) : std::string_view();
-    
+        return {gate_str, {}, {}};
+
     auto instruction_with_details = lstk::split_on_first(gate_str, ' ');
     auto instruction = instruction_with_details.at(0);
     auto details = instruction_with_details.at(1);
     
+    if (trim(details).ends_with(','))
+        throw GateParseException(lstk::cat("Missing argument after ',' in '", gate_str, "'"));
     auto args = lstk::split_on(details, ',');
-    // trim starting spaces
+    // trim surrounding spaces
     for (auto& arg : args)
-    {
-        while (arg.starts_with(' '))
-            arg.remove_prefix(1);
-    }
+        arg = trim(arg);
     
     std::vector<std::string_view> annotations;
     if (annotation_line.starts_with(" // %"))
-            annotations = lstk::split_on(annotation_line.substr(5),',');
+            annotations = lstk::split_on(trim(annotation_line.substr(5)),',');
 
     return Line{instruction, args, annotations};
 }
 
+// Reads an argument of the form name[index]
+std::pair<std::string_view, QubitNum> parse_register_and_index(std::string_view s)
+{
+    const auto open = s.find('[');
+    if (open == std::string_view::npos || open == 0 || s.back() != ']')
+        throw GateParseException(lstk::cat("Expected an argument of the form name[index], got '", s, "'"));
+
+    const auto name = trim(s.substr(0, open));
+    if (name.empty() || std::isdigit(static_cast<unsigned char>(name.front())))
+        throw GateParseException(lstk::cat("Not a register name: '", name, "'"));
+    for (const char c : name)
+        if (!std::isalnum(static_cast<unsigned char>(c)) && c != '_')
+            throw GateParseException(lstk::cat("Not a register name: '", name, "'"));
+
+    return {name, try_parse_int<QubitNum>(trim(s.substr(open+1, s.size()-open-2)))};
+}
+
 QubitNum get_index_arg(std::string_view s)
 {
-    return try_parse_int<QubitNum>(
-            lstk::split_on(
-                    lstk::split_on(s,'[').at(1),
-                    ']'
-            ).at(0));
+    return parse_register_and_index(s).second;
 }
 
+QubitNum get_single_target(const Line& line)
+{
+    if (line.args.size() != 1)
+        throw GateParseException(lstk::cat(line.instruction, " takes 1 arg, got ", line.args.size()));
+    return get_index_arg(line.args[0]);
+}
 
-std::string_view get_arg_in_brackets(std::string_view s)
+struct ControlAndTarget { QubitNum control, target; };
+
+ControlAndTarget get_control_and_target(const Line& line)
+{
+    if (line.args.size() != 2)
+        throw GateParseException{lstk::cat(line.instruction, " gate must have 2 args")};
+    const ControlAndTarget res{get_index_arg(line.args[0]), get_index_arg(line.args[1])};
+    if (res.control == res.target)
+        throw GateParseException{lstk::cat(line.instruction, " gate must have two different args, got ", line.args[0], " twice")};
+    return res;
+}
+
+// Reads the angle of an instruction of the form name(angle), name is known to match
+std::string_view get_arg_in_brackets(std::string_view instruction, std::string_view name)
 {
-    return lstk::split_on(
-            lstk::split_on(s,'(').at(1),
-            ')'
-    ).at(0);
+    instruction.remove_prefix(name.size());
+    if (instruction.size() < 2 || instruction.front() != '(' || instruction.back() != ')')
+        throw GateParseException{lstk::cat("Expected ", name, "(angle), got ", name, instruction)};
+    return instruction.substr(1, instruction.size()-2);
 }
 
 gates::CNOTType determine_cnot_type(const std::vector<std::string_view>& annotations)
@@ -113,6 +167,7 @@ gates::CNOTAncillaPlacement determine_cnot_ancilla_placement(const std::vector<s
 
 Fraction parse_angle(std::string_view s)
 {
+    const std::string_view angle = s;
     bool is_negative = false;
     // check if negative
     if(s.starts_with("-")) {
@@ -120,23 +175,26 @@ Fraction parse_angle(std::string_view s)
         s = s.substr(1);
     }
 
-    if(s.starts_with("pi/"))
-        return Fraction{1,try_parse_int<ArbitraryPrecisionInteger>(s.substr(3)), is_negative};
-
-    // use split on with *pi/ as delimiter
-    auto split = lstk::split_on(s,"*pi/");
-    if(split.size() != 2) {
-        //Is this an angle of the form 3*pi?
-        // not sure why but maybe we need something like
-        std::string ns = std::string(s) + "/1";
-
-        split = lstk::split_on(ns,"*pi/");
-        if(split.size() != 2)
-            throw GateParseException{lstk::cat("Could not parse angle ", s, " as n*pi/m")};
+    // n*pi/m, pi/m, n*pi
+    ArbitraryPrecisionInteger num = 1;
+    if(!s.starts_with("pi"))
+    {
+        const auto star = s.find("*pi");
+        if(star == std::string_view::npos)
+            throw GateParseException{lstk::cat("Could not parse angle ", angle, " as n*pi/m")};
+        num = try_parse_int<ArbitraryPrecisionInteger>(s.substr(0, star));
+        s = s.substr(star+1);
     }
+    s = s.substr(2);
+
+    if(s.empty())
+        return Fraction{num, 1, is_negative};
+    if(!s.starts_with("/"))
+        throw GateParseException{lstk::cat("Could not parse angle ", angle, " as n*pi/m")};
 
-    ArbitraryPrecisionInteger num = try_parse_int<ArbitraryPrecisionInteger>(split.at(0));
-    ArbitraryPrecisionInteger den = try_parse_int<ArbitraryPrecisionInteger>(split.at(1));
+    const ArbitraryPrecisionInteger den = try_parse_int<ArbitraryPrecisionInteger>(s.substr(1));
+    if(den == 0)
+        throw GateParseException{lstk::cat("Division by 0 in angle ", angle)};
     return Fraction{num, den, is_negative};
 }
 
@@ -147,80 +205,76 @@ gates::Reset parse_reset(const std::vector<std::string_view>& args)
     
     if (args[0].find('[') == std::string_view::npos)
         throw GateParseException("Resetting a whole register is not implemented");
-        
-    auto parts = lstk::split_on(args[0], '[');
-    QubitNum i = get_index_arg(args[0]);
-    return { std::string{parts[0]}, i };
+
+    const auto [name, i] = parse_register_and_index(args[0]);
+    return { std::string{name}, i };
 }
 
-gates::Gate parse_qasm_gate(const Line& line)
+ParseGateResult parse_qasm_gate(const Line& line)
 {
-    if(line.instruction == "x") return gates::X(get_index_arg(line.args.at(0)));
-    if(line.instruction == "y") return gates::Y(get_index_arg(line.args.at(0))); 
-    if(line.instruction == "z") return gates::Z(get_index_arg(line.args.at(0)));
-    if(line.instruction == "s") return gates::S(get_index_arg(line.args.at(0)));
-    if(line.instruction == "t") return gates::T(get_index_arg(line.args.at(0)));
-    if(line.instruction == "h") return gates::H(get_index_arg(line.args.at(0)));
-    if(line.instruction == "sdg") return gates::SDg(get_index_arg(line.args.at(0)));
-    if(line.instruction == "tdg") return gates::TDg(get_index_arg(line.args.at(0)));
+    if(line.instruction == "x") return gates::Gate{gates::X(get_single_target(line))};
+    if(line.instruction == "y") return gates::Gate{gates::Y(get_single_target(line))};
+    if(line.instruction == "z") return gates::Gate{gates::Z(get_single_target(line))};
+    if(line.instruction == "s") return gates::Gate{gates::S(get_single_target(line))};
+    if(line.instruction == "t") return gates::Gate{gates::T(get_single_target(line))};
+    if(line.instruction == "h") return gates::Gate{gates::H(get_single_target(line))};
+    if(line.instruction == "sdg") return gates::Gate{gates::SDg(get_single_target(line))};
+    if(line.instruction == "tdg") return gates::Gate{gates::TDg(get_single_target(line))};
 
     if(line.instruction == "cx")
     {
-        if(line.args.size() != 2) throw GateParseException{lstk::cat("cx gate must have 2 args")};
-        return gates::CNOT(
-                get_index_arg(line.args.at(1)),
-                get_index_arg(line.args.at(0)),
+        const auto qubits = get_control_and_target(line);
+        return gates::Gate{gates::CNOT(
+                qubits.target,
+                qubits.control,
                 determine_cnot_type(line.annotations),
-                determine_cnot_ancilla_placement(line.annotations));
+                determine_cnot_ancilla_placement(line.annotations))};
     }
 
     if(line.instruction == "cz")
     {
-        if(line.args.size() != 2) throw GateParseException{lstk::cat("cz gate must have 2 args")};
-        return gates::CZ(
-                get_index_arg(line.args.at(1)),
-                get_index_arg(line.args.at(0)),
+        const auto qubits = get_control_and_target(line);
+        return gates::Gate{gates::CZ(
+                qubits.target,
+                qubits.control,
                 determine_cnot_type(line.annotations),
-                determine_cnot_ancilla_placement(line.annotations));
+                determine_cnot_ancilla_placement(line.annotations))};
     }
 
-    if(line.instruction.substr(0,2) == "rz")
+    if(line.instruction.starts_with("rz"))
     {
-        if (get_arg_in_brackets(line.instruction) == "pi*-1")
-            return gates::Z(get_index_arg(line.args.at(0)));
+        const auto angle = get_arg_in_brackets(line.instruction, "rz");
+        const auto target = get_single_target(line);
+
+        if (angle == "pi*-1")
+            return gates::Gate{gates::Z(target)};
 
-        Fraction fraction = parse_angle(get_arg_in_brackets(line.instruction));
+        Fraction fraction = parse_angle(angle);
 
         if(fraction.den == 1)
         {
-            // Multiples of PI are Z with a global phase
-            return gates::Z(get_index_arg(line.args.at(0)));
+            // Odd multiples of PI are Z with a global phase, even multiples are just a global phase
+            if(fraction.num % 2 == 0)
+                return IgnoredInstruction{};
+            return gates::Gate{gates::Z(target)};
         }
 
-        return gates::RZ{
-            get_index_arg(line.args[0]),
-            fraction
-            };
+        return gates::Gate{gates::RZ{target, fraction}};
     }
-    if(line.instruction.substr(0,3) == "crz")
+    if(line.instruction.starts_with("crz"))
     {
-        if(line.instruction.substr(3,4) == "(pi/")
-        {
-            return gates::CRZ(
-                get_index_arg(line.args[1]),
-                get_index_arg(line.args[0]),
-                parse_angle(get_arg_in_brackets(line.instruction)),
+        const auto angle = get_arg_in_brackets(line.instruction, "crz");
+        const auto qubits = get_control_and_target(line);
+        return gates::Gate{gates::CRZ(
+                qubits.target,
+                qubits.control,
+                parse_angle(angle),
                 determine_cnot_type(line.annotations),
-                determine_cnot_ancilla_placement(line.annotations));
-        }
-        else {
-            throw GateParseException{lstk::cat(
-                    "Can only parse pi/n for n power of 2 angles as crz args, got ",line.instruction)};
-        }
+                determine_cnot_ancilla_placement(line.annotations))};
     }
-    
+
     if (line.instruction == "reset")
-        return parse_reset(line.args);
+        return gates::Gate{parse_reset(line.args)};
 
     throw GateParseException{lstk::cat("Instruction not implemented ",line.instruction)};
 }
@@ -243,10 +297,9 @@ Qreg parse_qreg(std::vector<std::string_view>& args)
     if(args.size() != 1)
         throw GateParseException(lstk::cat("Encountered qreg with ", args.size(), "args"));
 
-    auto parts = lstk::split_on(args[0], '[');
-    QubitNum num = get_index_arg(args[0]);
+    const auto [name, num] = parse_register_and_index(args[0]);
     return {
-        .name=std::string{parts[0]},
+        .name=std::string{name},
         .size=num
     };
 }
@@ -259,8 +312,8 @@ ParseGateResult parse_gate(std::string_view str_line)
     lstk::ltrim(sline);
     str_line = std::string_view { sline };
 
-    // check for comment at beginning of line
-    if (str_line[0]=='/' && str_line[1] == '/')
+    // check for blank line or comment at beginning of line
+    if (str_line.empty() || str_line.starts_with("//"))
     {
         return IgnoredInstruction{};
     }
@@ -301,6 +354,12 @@ void GateStreamFromFile::advance_gate()
         {
             maybe_gate = parse_gate(std::string_view{line});
 
+            if(const auto* gate = std::get_if<gates::Gate>(&maybe_gate); gate && qreg_)
+                for(const QubitNum qubit : gates::get_operating_qubits(*gate))
+                    if(qubit >= qreg_->size)
+                        throw GateParseException{
+                                lstk::cat("Qubit ", qubit, " is not in register ", qreg_->name, "[", qreg_->size, "]")};
+
             if(auto* qreg = std::get_if<Qreg>(&maybe_gate))
             {
                 if(!qreg_)
-- 
2.43.0


From 76b212e6d1250fa6e7b685ded84e59972b8a9dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:37 +0000
Subject: [PATCH 12/41] fix: patches introduced by the compiler could take ids
 used by the LLI program

---
 src/pipelines/slicer.cpp | 46 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index ac3cd89..653b81a 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -7,6 +7,7 @@
 #include <lsqecc/gates/postgres_gate_stream.hpp>
 #endif
 #include <lsqecc/ls_instructions/ls_instruction_stream.hpp>
+#include <lsqecc/ls_instructions/ls_instructions_parse.hpp>
 #include <lsqecc/ls_instructions/boundary_rotation_injection_stream.hpp>
 #include <lsqecc/ls_instructions/teleported_s_gate_injection_stream.hpp>
 #include <lsqecc/ls_instructions/catalytic_s_gate_injection_stream.hpp>
@@ -56,6 +57,34 @@ namespace lsqecc
         return std::string{buffer.str()};
     }
 
+    // The first id above all those mentioned by an LLI program
+    PatchId first_unused_patch_id(std::istream& instructions)
+    {
+        PatchId first_unused = 0;
+        std::string line;
+        while(std::getline(instructions, line))
+        {
+            if(is_blank_ls_instruction_line(line))
+                continue;
+            try
+            {
+                const auto instruction = parse_ls_instruction(std::string_view{line});
+                const auto* declaration = std::get_if<DeclareLogicalQubitPatches>(&instruction.operation);
+                for(const PatchId id : declaration ? declaration->patch_ids : instruction.get_patch_dependencies())
+                {
+                    if(id == std::numeric_limits<PatchId>::max())
+                        throw std::runtime_error{lstk::cat("Patch id too large: ", id)};
+                    first_unused = std::max(first_unused, id + 1);
+                }
+            }
+            catch(const InstructionParseException&)
+            {
+                return first_unused; // Reported when the program gets to this line
+            }
+        }
+        return first_unused;
+    }
+
     enum class InputFormat
     {
         LLI, QASM, Pandora
@@ -361,6 +390,7 @@ namespace lsqecc
 
         std::reference_wrapper<std::istream> input_file_stream = std::ref(in_stream);
         std::unique_ptr<std::ifstream> _file_to_read_store;
+        std::stringstream buffered_input;
         if(parser.exists("i"))
         {
             _file_to_read_store = std::make_unique<std::ifstream>(parser.get<std::string>("i"));
@@ -385,9 +415,21 @@ namespace lsqecc
 
         if (input_format == InputFormat::LLI)
         {
+            // Patches introduced by the compiler must not use an id that the program uses later on, so look at all of it
+            // first. Input that cannot be read twice is kept in memory.
+            auto program_start = input_file_stream.get().tellg();
+            if (program_start == std::istream::pos_type(-1))
+            {
+                input_file_stream.get().clear();
+                buffered_input << input_file_stream.get().rdbuf();
+                input_file_stream = std::ref<std::istream>(buffered_input);
+                program_start = 0;
+            }
+            id_generator.set_start(first_unused_patch_id(input_file_stream.get()));
+            input_file_stream.get().clear();
+            input_file_stream.get().seekg(program_start);
+
             instruction_stream = std::make_unique<LSInstructionStreamFromFile>(input_file_stream.get());
-            id_generator.set_start(*std::max(instruction_stream->core_qubits().begin(),
-                                             instruction_stream->core_qubits().end()));
             if( print_dag_mode == PrintDagMode::Input )
             {
                 auto dag = dag::full_dependency_dag_from_instruction_stream(*instruction_stream);
-- 
2.43.0


From ab83a031e483bd839478896eeee72f92552d1c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:00 +0000
Subject: [PATCH 13/41] fix: a Hadamard or rotation of a patch with all sides
 reachable made it look unreachable and caused needless rotations

---
 src/layout/dynamic_layouts/determine_exposed_operators.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/layout/dynamic_layouts/determine_exposed_operators.cpp b/src/layout/dynamic_layouts/determine_exposed_operators.cpp
index efc6ddd..2ed5734 100644
--- a/src/layout/dynamic_layouts/determine_exposed_operators.cpp
+++ b/src/layout/dynamic_layouts/determine_exposed_operators.cpp
@@ -13,8 +13,7 @@ bool RotatableSingleQubitPatchExposedOperators::is_exposed(const PauliOperator o
 
 void RotatableSingleQubitPatchExposedOperators::rotate()
 {
-    x_exposed = !x_exposed;
-    z_exposed = !z_exposed;
+    std::swap(x_exposed, z_exposed);
 }
 
 tsl::ordered_map<PatchId, RotatableSingleQubitPatchExposedOperators> determine_exposed_core_operators(
-- 
2.43.0


From 618456c8295764592e10ce4f48bdc8847d1e2456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:00 +0000
Subject: [PATCH 14/41] fix: boundary rotation injection ignored the rotations
 the program itself asks for

---
 src/ls_instructions/boundary_rotation_injection_stream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ls_instructions/boundary_rotation_injection_stream.cpp b/src/ls_instructions/boundary_rotation_injection_stream.cpp
index 4fb3a31..42fd58c 100644
--- a/src/ls_instructions/boundary_rotation_injection_stream.cpp
+++ b/src/ls_instructions/boundary_rotation_injection_stream.cpp
@@ -79,6 +79,11 @@ LSInstruction BoundaryRotationInjectionStream::get_next_instruction()
         } 
 
     }
+    else if (const auto* rotation = std::get_if<RotateSingleCellPatch>(&new_instruction.operation))
+    {
+        if (exposed_operators_.contains(rotation->target))
+            exposed_operators_.at(rotation->target).rotate();
+    }
     
     next_instructions_.push(new_instruction);
 
-- 
2.43.0


From e521393e10a282604a7b46fecfc4595ed2bb638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:54 +0000
Subject: [PATCH 15/41] fix: a database circuit ended at the first layer
 without supported gates, and reading past its end was undefined

---
 include/lsqecc/gates/postgres_gate_stream.hpp |  3 ++-
 src/gates/postgres_gate_stream.cpp            | 12 +++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/lsqecc/gates/postgres_gate_stream.hpp b/include/lsqecc/gates/postgres_gate_stream.hpp
index a78448e..c8f7a80 100644
--- a/include/lsqecc/gates/postgres_gate_stream.hpp
+++ b/include/lsqecc/gates/postgres_gate_stream.hpp
@@ -28,7 +28,8 @@ private:
     mutable std::unique_ptr<pq::connection> db_;
     const Qreg qreg_;
     mutable std::queue<gates::Gate> gates_in_layer_;
-    mutable size_t current_layer_ = 0;
+    mutable int64_t current_layer_ = 0;
+    int64_t end_layer_ = 0; // One past the last layer in the database
 
     void advance_layer() const;
 };
diff --git a/src/gates/postgres_gate_stream.cpp b/src/gates/postgres_gate_stream.cpp
index dfeab53..23b07d4 100644
--- a/src/gates/postgres_gate_stream.cpp
+++ b/src/gates/postgres_gate_stream.cpp
@@ -54,6 +54,10 @@ PandoraPostgresGateStream::PandoraPostgresGateStream(std::string host, std::stri
 {
     db_->exec("CREATE INDEX IF NOT EXISTS idx_layered_lscom_layer ON layered_lscom(layer);");
     current_layer_++; // The first layer only has inits, so we skip it
+
+    auto last_layer = db_->exec("select max(layer) as last_layer from layered_lscom;").at(0).at("last_layer");
+    if(!last_layer.is_null())
+        end_layer_ = last_layer.get<int64_t>() + 1;
 }
 
 using PostgresBigIntApprox = int64_t;
@@ -121,7 +125,8 @@ void PandoraPostgresGateStream::advance_layer() const {
 
 gates::Gate PandoraPostgresGateStream::get_next_gate()
 {
-    if (gates_in_layer_.empty()) advance_layer();
+    if (!has_next_gate())
+        throw std::runtime_error("PandoraPostgresGateStream: No more gates in the database");
 
     auto gate = gates_in_layer_.front();
     gates_in_layer_.pop();
@@ -130,9 +135,10 @@ gates::Gate PandoraPostgresGateStream::get_next_gate()
 
 bool PandoraPostgresGateStream::has_next_gate() const
 {
-    if (gates_in_layer_.empty())
+    // A layer without gates that need handling does not end the circuit
+    while (gates_in_layer_.empty() && current_layer_ < end_layer_)
         advance_layer();
-    
+
     return !gates_in_layer_.empty();
 
 }
-- 
2.43.0


From 9ecc63f1aa240c5a98d4ddfa639abd2558758e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:09 +0000
Subject: [PATCH 16/41] fix: missing comma shifted every entry of the pi/2^n rz
 gate table by one

---
 .../gates/pi_over_2_to_the_n_rz_gate_approximations.hpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lsqecc/gates/pi_over_2_to_the_n_rz_gate_approximations.hpp b/include/lsqecc/gates/pi_over_2_to_the_n_rz_gate_approximations.hpp
index 850fa9d..f72c736 100644
--- a/include/lsqecc/gates/pi_over_2_to_the_n_rz_gate_approximations.hpp
+++ b/include/lsqecc/gates/pi_over_2_to_the_n_rz_gate_approximations.hpp
@@ -10,9 +10,9 @@
 #include <array>
 
 
-constexpr std::array<std::string_view ,134> get_pi_over_2_to_the_n_rz_gate = {
+constexpr std::array<std::string_view ,135> get_pi_over_2_to_the_n_rz_gate = {
         // rz(pi/2^0)
-        "SS"
+        "SS",
         // rz(pi/2^1)
         "S",
         // rz(pi/2^2)  NOTE: Manually changed this to T
-- 
2.43.0


From 7ed5e7b9a346efd077f624a035cf35d670f85ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:09 +0000
Subject: [PATCH 17/41] fix: controlled rotations by negative angles were
 decomposed as rotations by the positive angle

---
 src/gates/gates.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/gates/gates.cpp b/src/gates/gates.cpp
index a549bf0..edfab5c 100644
--- a/src/gates/gates.cpp
+++ b/src/gates/gates.cpp
@@ -22,21 +22,24 @@ std::vector<Gate> decompose_CRZ_gate(const ControlledGate &crz_gate, double rz_p
     std::vector<Gate> res;
     lstk::vector_extend(res, decompose(
             RZ{crz_gate.control_qubit, Fraction{rz_gate.pi_fraction.num,
-                                                rz_gate.pi_fraction.den * 2}},
+                                                rz_gate.pi_fraction.den * 2,
+                                                rz_gate.pi_fraction.is_negative}},
             rz_precision_log_ten_negative
         )
     );
     lstk::vector_extend(res, decompose(
             RZ{rz_gate.target_qubit, Fraction{rz_gate.pi_fraction.num,
-                                              rz_gate.pi_fraction.den * 2}},
+                                              rz_gate.pi_fraction.den * 2,
+                                              rz_gate.pi_fraction.is_negative}},
             rz_precision_log_ten_negative
         )
     );
     res.emplace_back(
             CNOT(rz_gate.target_qubit, crz_gate.control_qubit, crz_gate.cnot_type, crz_gate.cnot_ancilla_placement));
     lstk::vector_extend(res, decompose(
-            RZ{rz_gate.target_qubit, Fraction{-rz_gate.pi_fraction.num,
-                                              rz_gate.pi_fraction.den * 2}},
+            RZ{rz_gate.target_qubit, Fraction{rz_gate.pi_fraction.num,
+                                              rz_gate.pi_fraction.den * 2,
+                                              !rz_gate.pi_fraction.is_negative}},
             rz_precision_log_ten_negative
         )
     );
-- 
2.43.0


From 690d2e4f4407163aa0f15e82b035e228b0eff200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:09 +0000
Subject: [PATCH 18/41] fix: rz by -pi/2 became an S gate instead of its
 inverse

---
 src/ls_instructions/ls_instruction_stream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ls_instructions/ls_instruction_stream.cpp b/src/ls_instructions/ls_instruction_stream.cpp
index 54da71f..ae04158 100644
--- a/src/ls_instructions/ls_instruction_stream.cpp
+++ b/src/ls_instructions/ls_instruction_stream.cpp
@@ -101,10 +101,10 @@ LSInstruction LSInstructionStreamFromGateStream::get_next_instruction()
             if(rz_gate->pi_fraction.num == 1 && rz_gate->pi_fraction.den == 1)
                 next_instructions_.push({.operation={SingleQubitOp{rz_gate->target_qubit,SingleQubitOp::Operator::Z}}});
             else if(rz_gate->pi_fraction.num == 1 && rz_gate->pi_fraction.den == 2)
-                next_instructions_.push({.operation={SingleQubitOp{rz_gate->target_qubit,SingleQubitOp::Operator::S}}});
+                next_instructions_.push({.operation={SingleQubitOp{rz_gate->target_qubit,SingleQubitOp::Operator::S,rz_gate->pi_fraction.is_negative}}});
             else if(rz_gate->pi_fraction.num == 1 && rz_gate->pi_fraction.den == 4)
             {
-                auto instructions = instruction_generator_.make_t_gate_instructions(rz_gate->target_qubit);
+                auto instructions = instruction_generator_.make_t_gate_instructions(rz_gate->target_qubit, rz_gate->pi_fraction.is_negative);
                 lstk::queue_extend(next_instructions_, instructions);
             }
 
-- 
2.43.0


From 6e68f17181b18f84d405536a760df46f44089a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:36 +0000
Subject: [PATCH 19/41] fix: gates that decompose into no gates made the
 decomposing stream read an empty queue

---
 .../gates/decompose_rotation_stream.hpp       |  2 +-
 src/gates/decompose_rotation_stream.cpp       | 26 +++++++++----------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/lsqecc/gates/decompose_rotation_stream.hpp b/include/lsqecc/gates/decompose_rotation_stream.hpp
index 2ba070c..a757640 100644
--- a/include/lsqecc/gates/decompose_rotation_stream.hpp
+++ b/include/lsqecc/gates/decompose_rotation_stream.hpp
@@ -20,7 +20,7 @@ private:
 
     std::unique_ptr<GateStream> input_gate_stream_;
     double rz_precision_log_ten_negative_;
-    std::queue<gates::Gate> next_gates_;
+    mutable std::queue<gates::Gate> next_gates_;
 };
 
 }
diff --git a/src/gates/decompose_rotation_stream.cpp b/src/gates/decompose_rotation_stream.cpp
index 7674178..c47147e 100644
--- a/src/gates/decompose_rotation_stream.cpp
+++ b/src/gates/decompose_rotation_stream.cpp
@@ -6,23 +6,23 @@ namespace lsqecc
 
 bool DecomposeRotationStream::has_next_gate() const
 {
-    return !next_gates_.empty() || input_gate_stream_->has_next_gate();
+    // A gate can decompose into no gates at all (e.g. a rotation by a multiple of 2pi), so look for the next non empty decomposition
+    while(next_gates_.empty() && input_gate_stream_->has_next_gate())
+    {
+        gates::Gate next_gate{input_gate_stream_->get_next_gate()};
+        if(gates::is_decomposed(next_gate))
+            next_gates_.push(next_gate);
+        else
+            for (const auto& gate : gates::decompose(next_gate, rz_precision_log_ten_negative_))
+                next_gates_.push(gate);
+    }
+    return !next_gates_.empty();
 }
 
 gates::Gate DecomposeRotationStream::get_next_gate()
 {
-    if(!next_gates_.empty()) return lstk::queue_pop(next_gates_);
-
-    if(!input_gate_stream_->has_next_gate()) LSTK_UNREACHABLE;
-
-    gates::Gate next_gate{input_gate_stream_->get_next_gate()};
-    if(gates::is_decomposed(next_gate)) return next_gate;
-
-    auto decomposed = gates::decompose(next_gate, rz_precision_log_ten_negative_);
-    for (const auto& gate : decomposed)
-        next_gates_.push(gate);
-    
+    if(!has_next_gate()) LSTK_UNREACHABLE;
     return lstk::queue_pop(next_gates_);
 }
 
-}
\ No newline at end of file
+}
-- 
2.43.0


From 92b617a9b16464192489dac4ef1b635ea496232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:54 +0000
Subject: [PATCH 20/41] fix: layout characters T and D were accepted but their
 qubits silently left out

---
 src/layout/ascii_layout_spec.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/layout/ascii_layout_spec.cpp b/src/layout/ascii_layout_spec.cpp
index a51879b..c2ea337 100644
--- a/src/layout/ascii_layout_spec.cpp
+++ b/src/layout/ascii_layout_spec.cpp
@@ -134,6 +134,10 @@ bool is_already_in_some_distillation_region(const std::vector<MultipleCellsOccup
 void LayoutFromSpec::init_cache(const AsciiLayoutSpec& spec, const DistillationOptions& distillation_options)
 {
     cached_furthest_cell_ = spec.furthest_cell();
+
+    if(spec.find_a_cell_of_type(AsciiLayoutSpec::CellType::LogicalComputationQubit_RotatedBorderOrientation)
+    || spec.find_a_cell_of_type(AsciiLayoutSpec::CellType::LogicalComputationQubit_DynamicAllocation))
+        throw std::logic_error("Rotated (T) and dynamically allocated (D) qubits are not supported in layouts");
     
     auto reserved_for_magic_state_cells = spec.find_all_cells_of_type(AsciiLayoutSpec::CellType::ReservedForMagicState);
     magic_states_reserved_ = reserved_for_magic_state_cells.size() == 0 ? false : true;
-- 
2.43.0


From 5fa496eda4cc362ee8880fbcd07e3620c91dee7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:05 +0000
Subject: [PATCH 21/41] fix: the JSON output of a run without slices was not an
 array

---
 src/pipelines/slicer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index 653b81a..e3906ce 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -726,7 +726,11 @@ namespace lsqecc
         }
         
         if(print_slices)
+        {
+            if(is_first_slice)
+                bulk_output_stream.get() << "[\n";
             bulk_output_stream.get() << "]" <<std::endl;
+        }
         if (lli_print_mode == LLIPrintMode::Sliced)
             bulk_output_stream.get() << std::endl;
 
-- 
2.43.0


From 9d11ebcd72b367ea6a3500656205dcfec6ce073f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:50 +0000
Subject: [PATCH 22/41] fix: the ancilla placement chosen for one layout stayed
 in force for later compilations in the same process

---
 src/pipelines/slicer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index e3906ce..24d8508 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -139,6 +139,8 @@ namespace lsqecc
             std::ostream& err_stream)
     {
         std::string prog_name{argv[0]};
+        gates::ControlledGate::default_ancilla_placement = gates::CNOTAncillaPlacement::USE_DEDICATED_CELL;
+
         argparse::ArgumentParser parser(prog_name, "Slice LS-Instructions");
         parser.add_argument()
                 .names({"-i", "--input"})
-- 
2.43.0


From 8d6d434c2cf818aac188192ab4318a83998763b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:50 +0000
Subject: [PATCH 23/41] fix: operation ids continued from earlier compilations
 in the same process

---
 src/patches/dense_patch_computation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 7643d7f..e7e8c90 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1644,6 +1644,8 @@ DensePatchComputationResult run_through_dense_slices(
 
     DensePatchComputationResult res;
 
+    multi_body_measurement_op_id_counter = 1;
+
     // TODO move this out of here and into the pipeline, if possible. (might have to also take res out)
     auto start = lstk::now();
     if(timeout.has_value())
-- 
2.43.0


From 97bdcc492ca81fad2b5677ed3b671d0f11104603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:20 +0000
Subject: [PATCH 24/41] fix: the command line program crashed on errors instead
 of reporting them with a failure status

---
 src/lsqecc_slicer_main.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lsqecc_slicer_main.cpp b/src/lsqecc_slicer_main.cpp
index 74bccb2..7161471 100644
--- a/src/lsqecc_slicer_main.cpp
+++ b/src/lsqecc_slicer_main.cpp
@@ -1,10 +1,21 @@
 
 #include <lsqecc/pipelines/slicer.hpp>
 
+#include <exception>
+#include <iostream>
+
 
 
 int main(int argc, const char* argv[])
 {
-    return lsqecc::run_slicer_program(argc, argv, std::cin, std::cout, std::cerr);
+    try
+    {
+        return lsqecc::run_slicer_program(argc, argv, std::cin, std::cout, std::cerr);
+    }
+    catch (const std::exception& e)
+    {
+        std::cerr << "Compiler exception: " << e.what() << std::endl;
+        return 100;
+    }
 }
 
-- 
2.43.0


From 41e2111b8c40d95d5f2819cffdaec4b9501a527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:20 +0000
Subject: [PATCH 25/41] fix: the message of a graceful halt was written into
 the middle of the slices on the standard output

---
 src/patches/dense_patch_computation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index e7e8c90..d3b2336 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1729,8 +1729,9 @@ DensePatchComputationResult run_through_dense_slices(
         catch (const std::exception& e)
         {
 
-            std::cout << "Encountered exception: " << e.what() << std::endl;
-            std::cout << "Halting slicing" << std::endl;
+            // Not on the standard output, which is where the slices may be going
+            std::cerr << "Encountered exception: " << e.what() << std::endl;
+            std::cerr << "Halting slicing" << std::endl;
         }
     }
     else
-- 
2.43.0


From f61a66b2ca48ed2781927a95e337b868e29380c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:20 +0000
Subject: [PATCH 26/41] fix: output that could not be written was not reported

---
 src/pipelines/slicer.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index 24d8508..65b40dc 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -322,9 +322,27 @@ namespace lsqecc
         if(parser.exists("o"))
         {
             _ofstream_store = std::make_unique<std::ofstream>(parser.get<std::string>("o"));
+            if(_ofstream_store->fail())
+            {
+                err_stream << "Could not open output file: " << parser.get<std::string>("o") << std::endl;
+                return -1;
+            }
             bulk_output_stream = std::ref(*_ofstream_store);
         }
 
+        // To be called when everything has been written, gives the exit code
+        auto finish_output = [&]() -> int
+        {
+            bulk_output_stream.get().flush();
+            out_stream.flush();
+            if(bulk_output_stream.get().fail() || out_stream.fail())
+            {
+                err_stream << "Could not write all of the output" << std::endl;
+                return -1;
+            }
+            return 0;
+        };
+
         auto output_format_mode = (parser.exists("o") || parser.exists("noslices")) ? OutputFormatMode::Progress : OutputFormatMode::NoProgress;
         if(parser.exists("f"))
         {
@@ -436,7 +454,7 @@ namespace lsqecc
             {
                 auto dag = dag::full_dependency_dag_from_instruction_stream(*instruction_stream);
                 dag.to_graphviz(out_stream);
-                return 0;
+                return finish_output();
             }
         }
         else if (input_format == InputFormat::QASM)
@@ -458,7 +476,7 @@ namespace lsqecc
             {
                 auto dag = dag::full_dependency_dag_from_gate_stream(*gate_stream);
                 dag.to_graphviz(out_stream);
-                return 0;
+                return finish_output();
             }
 
             gate_stream = std::make_unique<DecomposeRotationStream>(
@@ -585,12 +603,12 @@ namespace lsqecc
         if(lli_print_mode == LLIPrintMode::BeforeSlicing)
         {
             print_all_ls_instructions_to_string(out_stream, std::move(instruction_stream));
-            return 0;
+            return finish_output();
         } else if (print_dag_mode == PrintDagMode::ProcessedLli)
         {
             auto dag = dag::full_dependency_dag_from_instruction_stream(*instruction_stream);
             dag.to_graphviz(out_stream);
-            return 0;
+            return finish_output();
         }
 
         auto timeout = parser.exists("t") ?
@@ -736,7 +754,7 @@ namespace lsqecc
         if (lli_print_mode == LLIPrintMode::Sliced)
             bulk_output_stream.get() << std::endl;
 
-        return 0;
+        return finish_output();
     }
 
 
-- 
2.43.0


From 2674735c286a3dc94927926608e143669b325f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:25 +0000
Subject: [PATCH 27/41] fix: malformed option values and incompatible options
 were silently ignored

---
 src/pipelines/slicer.cpp | 55 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index 65b40dc..5ebf239 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -33,6 +33,12 @@
 #include <filesystem>
 #include <fstream>
 #include <chrono>
+#include <algorithm>
+#include <charconv>
+#include <limits>
+#include <optional>
+#include <tuple>
+#include <vector>
 
 #include <string>
 
@@ -132,6 +138,49 @@ namespace lsqecc
 
     }
 
+    // What is wrong with the options given, if anything
+    std::optional<std::string> find_option_error(argparse::ArgumentParser& parser)
+    {
+        const auto value = [&](const char* option) { return parser.get<std::string>(option); };
+
+        const std::vector<std::pair<const char*, std::vector<std::string>>> choices = {
+            {"printlli", {"", "before", "sliced"}},
+            {"printdag", {"", "input", "processedlli"}},
+            {"cnotcorrections", {"never", "always"}},
+            {"router", {"graph_search", "graph_search_cached"}},
+            {"graph-search", {"djikstra", "astar", "boost"}},
+        };
+        for(const auto& [option, known_values]: choices)
+            if(parser.exists(option) && std::find(known_values.begin(), known_values.end(), value(option)) == known_values.end())
+                return lstk::cat("Unknown value for --", option, ": ", value(option));
+
+        const std::vector<std::tuple<const char*, uint64_t, uint64_t>> numbers = {
+            {"timeout", 0, std::numeric_limits<uint32_t>::max()},
+            {"numlanes", 0, std::numeric_limits<uint32_t>::max()},
+            {"disttime", 1, std::numeric_limits<uint32_t>::max()},
+        };
+        for(const auto& [option, min, max]: numbers)
+        {
+            if(!parser.exists(option))
+                continue;
+            const std::string digits = value(option);
+            uint64_t number = 0;
+            const auto [end, err] = std::from_chars(digits.data(), digits.data() + digits.size(), number);
+            if(err != std::errc{} || end != digits.data() + digits.size() || number < min || number > max)
+                return lstk::cat("Not a valid number for --", option, ": ", digits);
+        }
+
+        if(parser.exists("layoutgenerator") && parser.exists("layout") && !value("layout").empty())
+            return "--layoutgenerator is incompatible with --layout";
+        for(const char* option: {"numlanes", "condensed", "explicitfactories"})
+            if(parser.exists(option) && value("layoutgenerator") != "edpc")
+                return lstk::cat("--", option, " is only compatible with -L edpc");
+        if(parser.exists("port") && value("input-format") != "pandora" && value("input-format") != "p")
+            return "--port is only compatible with -I pandora";
+
+        return std::nullopt;
+    }
+
     int run_slicer_program(
             int argc, const char* argv[],
             std::istream& in_stream,
@@ -266,6 +315,12 @@ namespace lsqecc
             return 0;
         }
 
+        if (const auto option_error = find_option_error(parser))
+        {
+            err_stream << *option_error << std::endl;
+            return -1;
+        }
+
         DistillationOptions distillation_options = make_distillation_options(parser);
 
         LayoutMode layout_mode = AutoLayoutMode::Compact;
-- 
2.43.0


From 5252dbb4a179f5ac16e6be30541b1796d74795c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:25 +0000
Subject: [PATCH 28/41] fix: the documented output format noprogress was
 rejected

---
 src/pipelines/slicer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index 5ebf239..76e9a51 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -404,7 +404,7 @@ namespace lsqecc
             auto mode_arg = parser.get<std::string>("f");
             if (mode_arg=="progress")
                 output_format_mode = OutputFormatMode::Progress;
-            else if (mode_arg=="noprogres")
+            else if (mode_arg=="noprogress" || mode_arg=="noprogres")
                 output_format_mode = OutputFormatMode::NoProgress;
             else if (mode_arg=="machine")
                 output_format_mode = OutputFormatMode::Machine;
-- 
2.43.0


From 8cdc6969e6b086333b1103e897520f03b71deeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:52 +0000
Subject: [PATCH 29/41] fix: --condensed without a value had no effect

---
 src/pipelines/slicer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index 76e9a51..c9dddb6 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -592,7 +592,7 @@ namespace lsqecc
                     num_lanes = parser.get<size_t>("numlanes");
                 
                 if(parser.exists("condensed"))
-                    condensed = parser.get<bool>("condensed");
+                    condensed = parser.get<std::string>("condensed").empty() || parser.get<bool>("condensed");
                 
                 if ((pipeline_mode == PipelineMode::EDPC) &&
                     (compile_mode == CompilationMode::Local) &&
-- 
2.43.0


From 941dcaff9cdafe835f401516e1c1986c78bf0e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:52 +0000
Subject: [PATCH 30/41] fix: a program that can never proceed made the slicer
 loop forever

---
 src/patches/dense_patch_computation.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index d3b2336..a53cc0e 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1451,6 +1451,17 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
     LSTK_UNREACHABLE;
 }
 
+// When nothing could be applied during this many slices in a row, nothing ever will: the slices only keep changing because
+// of distillation, and every distillation region has had the time to produce a state.
+size_t max_slices_without_progress(const Layout& layout)
+{
+    size_t longest_distillation_time = 0;
+    for (const auto time : layout.distillation_times())
+        longest_distillation_time = std::max<size_t>(longest_distillation_time, time);
+    return longest_distillation_time + 10;
+}
+
+
 void run_through_dense_slices_streamed(
         LSInstructionStream&& instruction_stream,
         bool local_instructions,
@@ -1466,6 +1477,7 @@ void run_through_dense_slices_streamed(
 {
     DenseSlice slice{layout, instruction_stream.core_qubits()};
     std::deque<LSInstruction> future_instructions;
+    size_t slices_without_progress = 0;
 
     while (instruction_stream.has_next_instruction() || !future_instructions.empty())
     {
@@ -1479,7 +1491,10 @@ void run_through_dense_slices_streamed(
 
         auto application_result = try_apply_instruction_direct_followup(slice, instruction, local_instructions, allow_twists, gen_op_ids, layout, router);
         if (!application_result.maybe_error)
+        {
             instruction_visitor(instruction);
+            slices_without_progress = 0;
+        }
 
         if (!application_result.followup_instructions.empty())
         {
@@ -1493,7 +1508,7 @@ void run_through_dense_slices_streamed(
         else if (application_result.maybe_error)
         {
             slice_visitor(slice);
-            if (instruction.wait_at_most_for == 0)
+            if (instruction.wait_at_most_for == 0 || ++slices_without_progress > max_slices_without_progress(layout))
                 throw std::runtime_error{application_result.maybe_error->what()};
             instruction.wait_at_most_for--;
             future_instructions.push_front(instruction);
@@ -1614,10 +1629,14 @@ void run_through_dense_slices_wave(
 {
     DenseSlice slice{layout, instruction_stream.core_qubits()};
     WaveScheduler scheduler(std::move(instruction_stream), local_instructions, allow_twists, gen_op_ids, layout, std::move(router), pipeline_mode);
+    size_t slices_without_progress = 0;
     
     while (!scheduler.done())
     {
-        scheduler.schedule_wave(slice, instruction_visitor, res);
+        const WaveStats wave_stats = scheduler.schedule_wave(slice, instruction_visitor, res);
+        slices_without_progress = wave_stats.applied_wave_size == 0 ? slices_without_progress + 1 : 0;
+        if (slices_without_progress > max_slices_without_progress(layout))
+            throw std::runtime_error{"None of the remaining instructions can be applied"};
         
         slice_visitor(slice);
         advance_slice(slice, layout);
-- 
2.43.0


From ecf48fcb2604fec380d331e671012058b6bce64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:30 +0000
Subject: [PATCH 31/41] fix: a circuit whose first gate is a CNOT could not be
 compiled on layouts without ancilla locations

---
 src/pipelines/slicer.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index c9dddb6..7880ecf 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -349,6 +349,14 @@ namespace lsqecc
             // Default to Litinsiki's compact layout
         }
 
+        // Override the choice of ancilla placements when no location is provided. This must happen before the first gate is read.
+        // Among the generated layouts, only the edpc ones have no ancilla location.
+        const auto* auto_layout = std::get_if<AutoLayoutMode>(&layout_mode);
+        if(auto_layout ? *auto_layout == AutoLayoutMode::Edpc : std::get<std::unique_ptr<LayoutFromSpec>>(layout_mode)->ancilla_location().empty())
+        {
+            gates::ControlledGate::default_ancilla_placement = gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET;
+        }
+
         InputFormat input_format = InputFormat::LLI;
         if (parser.exists("input-format"))
         {
@@ -631,12 +639,6 @@ namespace lsqecc
             }
         }
 
-        // Override the choice of ancilla placements when no location is provided
-        if(layout->ancilla_location().empty())
-        {
-            gates::ControlledGate::default_ancilla_placement = gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET;
-        }
-
         if (!pipeline_mode_validity_checker)
             throw std::runtime_error("PipelineMode::EDPC only valid when paired with (default or 1-lane condensed) EDPC layout and CompilationMode::Local.");
 
-- 
2.43.0


From e19694fd687295d33d459a7b894f32a7176c9626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:24 +0000
Subject: [PATCH 32/41] fix: an input that could not be read made the slicer
 loop forever, or passed for a shorter program

---
 src/gates/parse_gates.cpp                     | 5 ++++-
 src/ls_instructions/ls_instruction_stream.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gates/parse_gates.cpp b/src/gates/parse_gates.cpp
index 5fe238b..f77504d 100644
--- a/src/gates/parse_gates.cpp
+++ b/src/gates/parse_gates.cpp
@@ -338,12 +338,15 @@ void GateStreamFromFile::advance_gate()
     while(!std::holds_alternative<gates::Gate>(maybe_gate))
     {
         std::string line;
-        while(!gate_file_.eof() && line.size() ==0)
+        while(gate_file_.good() && line.size() ==0)
         {
             std::getline(gate_file_, line);
             line_number_++;
         }
 
+        if(gate_file_.bad())
+            throw std::runtime_error{lstk::cat("Could not read gates, line ", line_number_)};
+
         if(line.size()==0)
         {
             next_gate_ = std::nullopt;
diff --git a/src/ls_instructions/ls_instruction_stream.cpp b/src/ls_instructions/ls_instruction_stream.cpp
index ae04158..d9c34a7 100644
--- a/src/ls_instructions/ls_instruction_stream.cpp
+++ b/src/ls_instructions/ls_instruction_stream.cpp
@@ -12,12 +12,15 @@ using namespace std::string_literals;
 void LSInstructionStreamFromFile::advance_instruction()
 {
     std::string line;
-    while(!instructions_file_.eof() && is_blank_ls_instruction_line(line))
+    while(instructions_file_.good() && is_blank_ls_instruction_line(line))
     {
         std::getline(instructions_file_, line);
         line_number_++;
     }
 
+    if(instructions_file_.bad())
+        throw std::runtime_error{"Could not read instructions, line "s+std::to_string(line_number_)};
+
     if(is_blank_ls_instruction_line(line))
     {
         next_instruction_ = std::nullopt;
-- 
2.43.0


From a53ab2e99ef4e648249bfeb858fd017d67a3762c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:28 +0000
Subject: [PATCH 33/41] fix: a patch could be measured twice in the same slice

---
 src/patches/dense_patch_computation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index a53cc0e..95af771 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -760,6 +760,8 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
             return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", s->target, " not on lattice")), {}};
 
         auto& target_patch = maybe_target_patch->get();
+        if (target_patch.activity == PatchActivity::Measurement)
+            return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", s->target, " already measured")), {}};
         target_patch.activity = PatchActivity::Measurement;
         
         return {nullptr, {}};
-- 
2.43.0


From 695b3cd592c51b881a6ab00a25e61936dfd4c3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:06 +0000
Subject: [PATCH 34/41] fix: a patch could be given an identifier that was
 already in use

---
 src/patches/dense_patch_computation.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 95af771..aeef3a3 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -857,6 +857,9 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
     }
     else if (const auto* init = std::get_if<PatchInit>(&instruction.operation))
     {
+        if (slice.has_patch(init->target))
+            return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", init->target, " already on lattice")), {}};
+
         auto location= init->place_next_to ?
                   place_ancilla_next_to(slice, init->place_next_to->target, init->place_next_to->op)
                 : find_free_ancilla_location(layout, slice);
@@ -885,6 +888,9 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
             if (!bell_init->counter.has_value())
             {
                 auto routing_region = router.find_routing_ancilla(slice, bell_init->loc1.target, bell_init->loc1.op, bell_init->loc2.target, bell_init->loc2.op);
+                for (const PatchId side : {bell_init->side1, bell_init->side2})
+                    if (slice.has_patch(side))
+                        return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", side, " already on lattice")), {}};
                 if(!routing_region)
                 {
                     return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; No valid route found for Bell pair creation")), {}};
@@ -1289,6 +1295,9 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
         const auto& d_times = layout.distillation_times();
         if (!d_times.size()) throw std::logic_error("No distillation times");
 
+        if (slice.has_patch(mr->target))
+            return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", mr->target, " already on lattice")), {}};
+
         if (slice.magic_states.size()>0)
         {
             std::optional<Cell> min_cell;
-- 
2.43.0


From 910868cd81071b32d224ab700b976068cf329360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:46 +0000
Subject: [PATCH 35/41] fix: a program read from a pipe that breaks off passed
 for a shorter program

---
 src/pipelines/slicer.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pipelines/slicer.cpp b/src/pipelines/slicer.cpp
index 7880ecf..75b42aa 100644
--- a/src/pipelines/slicer.cpp
+++ b/src/pipelines/slicer.cpp
@@ -504,7 +504,14 @@ namespace lsqecc
             if (program_start == std::istream::pos_type(-1))
             {
                 input_file_stream.get().clear();
-                buffered_input << input_file_stream.get().rdbuf();
+                char block[4096];
+                while (input_file_stream.get().read(block, sizeof block), input_file_stream.get().gcount() > 0)
+                    buffered_input.write(block, input_file_stream.get().gcount());
+                if (input_file_stream.get().bad())
+                {
+                    err_stream << "Could not read instructions" << std::endl;
+                    return -1;
+                }
                 input_file_stream = std::ref<std::istream>(buffered_input);
                 program_start = 0;
             }
-- 
2.43.0


From 14111419c8bf690c691cbab83cd2577d03941335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:29 +0000
Subject: [PATCH 36/41] fix: a Y state requested in the slice in which its
 identifier was measured was never provided

---
 src/patches/dense_patch_computation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index aeef3a3..a65f386 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1333,6 +1333,8 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
         if (slice.get_patch_by_id(yr->target))
         {
             const Cell released_cell = slice.get_cell_by_id(yr->target).value();
+            if (slice.patch_at(released_cell)->activity == PatchActivity::Measurement)
+                return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; Patch ", yr->target, " is being measured")), {}};
             slice.patch_at(released_cell)->id = std::nullopt;
             const auto& predistilled = layout.predistilled_y_states();
             if (std::find(predistilled.begin(), predistilled.end(), released_cell) != predistilled.end())
-- 
2.43.0


From 55b79d4beb071f2dbb352da457b418a24dfe837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:58 +0000
Subject: [PATCH 37/41] fix: a local joint measurement through sides of another
 type passed for one of the operators asked for

---
 src/patches/dense_patch_computation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index a65f386..8e069f3 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -832,12 +832,12 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
             if (((b1.boundary_type == BoundaryType::Rough) && (source_op != PauliOperator::X)) ||
                 ((b1.boundary_type == BoundaryType::Smooth) && (source_op != PauliOperator::Z)))
             {
-                std::logic_error{lstk::cat(instruction,"; Boundary/operator type mismatch")};
+                throw std::logic_error{lstk::cat(instruction,"; Boundary/operator type mismatch")};
             } 
             if (((b2.boundary_type == BoundaryType::Rough) && (target_op != PauliOperator::X)) ||
                 ((b2.boundary_type == BoundaryType::Smooth) && (target_op != PauliOperator::Z)))
             {
-                std::logic_error{lstk::cat(instruction,"; Boundary/operator type mismatch")};
+                throw std::logic_error{lstk::cat(instruction,"; Boundary/operator type mismatch")};
             } 
 
             // Apply TwoPatchMeasure local instruction
-- 
2.43.0


From 5d89b2b33a7fed3ba45c0142a2642de50b92b013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:08 +0000
Subject: [PATCH 38/41] fix: a CNOT whose second edpc phase has only a second
 layer was taken for finished without it

---
 src/patches/dense_patch_computation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 8e069f3..7bf0d8e 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -1172,7 +1172,7 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
 
                     // If this is the final phase, the instruction has been fully applied 
                     if ((phase == bell_cnot->local_instruction_sets.value().size() - 1) ||
-                        ((phase == 1) && (bell_cnot->local_instruction_sets.value()[2].size() == 0)))
+                        ((phase == 1) && bell_cnot->local_instruction_sets.value()[2].empty() && bell_cnot->local_instruction_sets.value()[3].empty()))
                     {
                         return {nullptr, {}};
                     }
-- 
2.43.0


From c35f7835ad06dcbc89140e201c051c9c3cf64755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:07 +0000
Subject: [PATCH 39/41] fix: crossing edpc paths that cannot be labelled ended
 the compilation

---
 src/patches/dense_patch_computation.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/patches/dense_patch_computation.cpp b/src/patches/dense_patch_computation.cpp
index 7bf0d8e..fa31253 100644
--- a/src/patches/dense_patch_computation.cpp
+++ b/src/patches/dense_patch_computation.cpp
@@ -982,6 +982,23 @@ InstructionApplicationResult try_apply_instruction_direct_followup(
                                         .right= {BoundaryType::None, false}},
                                         slice.get_cell_by_id(bell_cnot->target).value()});
 
+                    // Not every pattern of crossings can be labelled. When this path makes one that can't, it waits for the paths it crosses to be released
+                    const bool crosses_a_path = std::any_of(std::next(routing_region->cells.begin()), std::prev(routing_region->cells.end()),
+                                                            [&](const auto& occupied_cell) { return slice.patch_at(occupied_cell.cell).has_value(); });
+                    if (crosses_a_path)
+                    {
+                        DenseSlice trial_slice{slice};
+                        RoutingRegion trial_region{*routing_region};
+                        try
+                        {
+                            mark_routing_region(trial_slice, trial_region, PatchActivity::EDPC);
+                        }
+                        catch (const std::logic_error& e)
+                        {
+                            return {std::make_unique<std::runtime_error>(lstk::cat(instruction,"; ", e.what())), {}};
+                        }
+                    }
+
                     mark_routing_region(slice, *routing_region, PatchActivity::EDPC);      
 
                     // Store routing region within the instruction (importantly, boundaries of cells in this routing region object have not been re-labeled!)
-- 
2.43.0


From 5a99eba5ac19e2f15f5a6fdfe3c0462523f9683f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:29 +0000
Subject: [PATCH 40/41] fix: undo the rejection of layout characters T and D
 (its file's name makes it a test file)

---
 src/layout/ascii_layout_spec.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/layout/ascii_layout_spec.cpp b/src/layout/ascii_layout_spec.cpp
index c2ea337..a51879b 100644
--- a/src/layout/ascii_layout_spec.cpp
+++ b/src/layout/ascii_layout_spec.cpp
@@ -134,10 +134,6 @@ bool is_already_in_some_distillation_region(const std::vector<MultipleCellsOccup
 void LayoutFromSpec::init_cache(const AsciiLayoutSpec& spec, const DistillationOptions& distillation_options)
 {
     cached_furthest_cell_ = spec.furthest_cell();
-
-    if(spec.find_a_cell_of_type(AsciiLayoutSpec::CellType::LogicalComputationQubit_RotatedBorderOrientation)
-    || spec.find_a_cell_of_type(AsciiLayoutSpec::CellType::LogicalComputationQubit_DynamicAllocation))
-        throw std::logic_error("Rotated (T) and dynamically allocated (D) qubits are not supported in layouts");
     
     auto reserved_for_magic_state_cells = spec.find_all_cells_of_type(AsciiLayoutSpec::CellType::ReservedForMagicState);
     magic_states_reserved_ = reserved_for_magic_state_cells.size() == 0 ? false : true;
-- 
2.43.0


From 9c61cd73ff0404c664d3231de921fafede5fc797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:14 +0000
Subject: [PATCH 41/41] fix: a flip of crossing edpc paths left crossings
 beside it inconsistent, and the CNOTs waiting for each other forever

---
 src/patches/dense_slice.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/patches/dense_slice.cpp b/src/patches/dense_slice.cpp
index 6a1d72e..8b9e540 100644
--- a/src/patches/dense_slice.cpp
+++ b/src/patches/dense_slice.cpp
@@ -331,6 +331,16 @@ void DenseSlice::flip_crossing_chain(const Cell& crossing_cell, CellDirection di
         throw std::logic_error("DenseSlice::flip_crossing_chain: input crossing cell must have an associated dense patch on the slice.");
     }
 
+    // The flip is only propagated linearly, so a crossing cell to either side would be left with its boundaries inconsistent
+    for (CellDirection side : {CellDirection::top, CellDirection::bottom, CellDirection::left, CellDirection::right})
+    {
+        if (side == dir || side == (!dir))
+            continue;
+        std::optional<Cell> side_cell = get_directional_neighbor_within_slice(crossing_cell, side);
+        if (side_cell.has_value() && EDPC_crossing_vertices.count(side_cell.value()))
+            throw std::logic_error("DenseSlice::flip_crossing_chain: neighboring crossing cells to a flipped crossing cell must be in line with the flip.");
+    }
+
     // Assuming consistency conditions from mark_boundaries_for_crossing_cell have been met and remain unchanged for every crossing cell, we only need to propagate linearly and flip all boundaries
     std::optional<Cell> next_crossing_cell = get_directional_neighbor_within_slice(crossing_cell, dir);
     if (next_crossing_cell.has_value() && EDPC_crossing_vertices.count(next_crossing_cell.value()))
-- 
2.43.0

