From eba0a85f048ec849f1277879b60002caf561931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 01/80] fix: generate unique local names case-insensitively and
 register them

---
 scripts/metavar.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index 35878bc..a7c6c70 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1683,6 +1683,10 @@ class VarDictionary(OrderedDict):
             if gen_unique:
                 new_lname = self.new_internal_variable_name(prefix=lname)
                 newvar = newvar.clone(new_lname)
+                # Note, <newvar> is only used if it is not already in <self>
+                if standard_name not in self:
+                    self.__local_names[new_lname.lower()] = standard_name
+                # end if
             elif not exists_ok:
                 errstr = 'Invalid local_name: {} already registered{}'
                 cstr = context_string(lvar.source.context, with_comma=True)
@@ -2085,7 +2089,8 @@ class VarDictionary(OrderedDict):
         else:
             var_prefix = '{}'.format(prefix)
         # end if
-        varlist = [x for x in self.__local_names.keys() if var_prefix in x]
+        # Fortran names are not case sensitive, __local_names keys are lowercase
+        varlist = list(self.__local_names.keys())
         newvar = None
         while newvar is None:
             if index == 0:
@@ -2097,7 +2102,7 @@ class VarDictionary(OrderedDict):
             if len(newvar) > max_len:
                 var_prefix = var_prefix[:-1]
                 newvar = None
-            elif newvar in varlist:
+            elif newvar.lower() in varlist:
                 newvar = None
             # end if
         # end while
-- 
2.43.0


From 3a494eb58dcf95eceb308aa3074ec9a24d6c3112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 02/80] fix: support array-element references to host module
 variables

---
 scripts/host_model.py | 3 ++-
 scripts/metavar.py    | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/host_model.py b/scripts/host_model.py
index c3beb44..8904c14 100644
--- a/scripts/host_model.py
+++ b/scripts/host_model.py
@@ -195,7 +195,8 @@ class HostModel(VarDictionary):
             module = self.host_variable_module(name)
             used = self.__used_variables and (name in self.__used_variables)
             if module and used and (module != cap_modname):
-                varset.add((module, name))
+                # An array reference is accessed through its array
+                varset.add((module, name.split('(')[0].strip()))
             # No else, either no module or a zero-length module name
             # End if
         # End for
diff --git a/scripts/metavar.py b/scripts/metavar.py
index a7c6c70..562df58 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -857,6 +857,9 @@ class Var:
     @parent.setter
     def parent(self, parent_var):
         """Set this variable's parent if not already set"""
+        if (self.__parent_var is not None) and (self.__parent_var is parent_var):
+            return # e.g., a module variable is also added to the host model
+        # end if
         if self.__parent_var is not None:
             emsg = 'Attempting to set parent for {} but parent already set'
             lname = self.get_prop_value('local_name')
-- 
2.43.0


From 208af96b5789394aac4995594a29cd17c233e002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 03/80] fix: list suite variables correctly when arrays and
 their elements are used

---
 scripts/ccpp_suite.py | 225 +++++-------------------------------------
 1 file changed, 24 insertions(+), 201 deletions(-)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index d2634c8..a991895 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -838,7 +838,6 @@ class API(VarDictionary):
         ofile.write("logical {}:: input_vars_use".format(' '*34), 2)
         ofile.write("logical {}:: output_vars_use".format(' '*34), 2)
         ofile.write("logical {}:: struct_elements_use".format(' '*34), 2)
-        ofile.write("integer {}:: num_vars".format(' '*34), 2)
         ofile.write("", 0)
         ename = self._errcode_var.get_prop_value('local_name')
         ofile.write("{} = 0".format(ename), 2)
@@ -917,210 +916,34 @@ class API(VarDictionary):
                     # end if
                 # end for
             # end for
-            # Figure out how many total variables to return and allocate
-            #   variable_list to that size
+            # Write the variable list for each combination of input options
             ofile.write(oline.format(else_str, suite.name), 2)
-            ofile.write("if (input_vars_use .and. output_vars_use) then", 3)
-            have_elems = input_vars[2] or inout_vars[2] or output_vars[2]
-            if have_elems:
-                ofile.write("if (struct_elements_use) then", 4)
-                numvars = len(input_vars[0] | input_vars[2] | inout_vars[0] |
-                              inout_vars[2] | output_vars[0] | output_vars[2])
-                ofile.write("num_vars = {}".format(numvars), 5)
-                ofile.write("else", 4)
-            # end if
-            numvars = len(input_vars[0] | input_vars[1] | inout_vars[0] |
-                          inout_vars[1] | output_vars[0] | output_vars[1])
-            ofile.write("num_vars = {}".format(numvars), 5 if have_elems else 4)
-            if have_elems:
-                ofile.write("end if", 4)
-            # end if
-            ofile.write("else if (input_vars_use) then", 3)
-            have_elems = input_vars[2] or inout_vars[2]
-            if have_elems:
-                ofile.write("if (struct_elements_use) then", 4)
-                numvars = len(input_vars[0] | input_vars[2] |
-                              inout_vars[0] | inout_vars[2])
-                ofile.write("num_vars = {}".format(numvars), 5)
-                ofile.write("else", 4)
-            # end if
-            numvars = len(input_vars[0] | input_vars[1] |
-                          inout_vars[0] | inout_vars[1])
-            ofile.write("num_vars = {}".format(numvars), 5 if have_elems else 4)
-            if have_elems:
-                ofile.write("end if", 4)
-            # end if
-            ofile.write("else if (output_vars_use) then", 3)
-            have_elems = inout_vars[2] or output_vars[2]
-            if have_elems:
-                ofile.write("if (struct_elements_use) then", 4)
-                numvars = len(inout_vars[0] | inout_vars[2] |
-                              output_vars[0] | output_vars[2])
-                ofile.write("num_vars = {}".format(numvars), 5)
-                ofile.write("else", 4)
-            # end if
-            numvars = len(inout_vars[0] | inout_vars[1] |
-                          output_vars[0] | output_vars[1])
-            ofile.write("num_vars = {}".format(numvars), 5 if have_elems else 4)
-            if have_elems:
-                ofile.write("end if", 4)
-            # end if
-            ofile.write("else", 3)
-            ofile.write("num_vars = 0", 4)
-            ofile.write("end if", 3)
-            ofile.write("allocate(variable_list(num_vars))", 3)
-            # Now, fill in the variable_list array
-            # Start with inout variables
-            elem_start = 1
-            leaf_start = 1
-            leaf_written_set = inout_vars[0].copy()
-            elem_written_set = inout_vars[0].copy()
-            leaf_list = sorted(inout_vars[0])
-            if inout_vars[0] or inout_vars[1] or inout_vars[2]:
-                ofile.write("if (input_vars_use .or. output_vars_use) then", 3)
-                API.write_var_set_loop(ofile, 'variable_list', leaf_list, 4,
-                                       add_allocate=False,
-                                       start_index=leaf_start)
-            # end if
-            leaf_start += len(leaf_list)
-            elem_start += len(leaf_list)
-            # elements which have not been written out
-            elem_list = sorted(inout_vars[2] - elem_written_set)
-            elem_written_set = elem_written_set | inout_vars[2]
-            leaf_list = sorted(inout_vars[1] - leaf_written_set)
-            leaf_written_set = leaf_written_set | inout_vars[1]
-            if elem_list or leaf_list:
-                ofile.write("if (struct_elements_use) then", 4)
-                API.write_var_set_loop(ofile, 'variable_list', elem_list, 5,
-                                       add_allocate=False,
-                                       start_index=elem_start)
-                elem_start += len(elem_list)
-                ofile.write("num_vars = {}".format(elem_start - 1), 5)
-                ofile.write("else", 4)
-                API.write_var_set_loop(ofile, 'variable_list', leaf_list, 5,
-                                       add_allocate=False,
-                                       start_index=leaf_start)
-                leaf_start += len(leaf_list)
-                ofile.write("num_vars = {}".format(leaf_start - 1), 5)
-                ofile.write("end if", 4)
-            else:
-                ofile.write("num_vars = {}".format(len(leaf_written_set)),
-                            4 if leaf_written_set else 3)
-            # end if
-            if inout_vars[0] or inout_vars[1] or inout_vars[2]:
-                ofile.write("end if", 3)
-            # end if
-            # Write input variables
-            leaf_list = sorted(input_vars[0] - leaf_written_set)
-            # Are there any output variables which are also input variables
-            #    (e.g., for a different part (group) of the suite)?
-            # We need to collect them now in case <input_vars> is selected
-            #    but not <output_vars>.
-            leaf_cross_set = output_vars[0] & input_vars[0]
-            simp_cross_set = (output_vars[1] & input_vars[1]) - leaf_cross_set
-            elem_cross_set = (output_vars[2] & input_vars[2]) - leaf_cross_set
-            # Subtract the variables which have already been written out
-            leaf_cross_list = sorted(leaf_cross_set - leaf_written_set)
-            simp_cross_list = sorted(simp_cross_set - leaf_written_set)
-            elem_cross_list = sorted(elem_cross_set - elem_written_set)
-            # Next move back to processing the input variables
-            leaf_written_set = leaf_written_set | input_vars[0]
-            elem_list = sorted(input_vars[2] - elem_written_set)
-            elem_written_set = elem_written_set | input_vars[0] | input_vars[2]
-            have_inputs = elem_list or leaf_list
-            if have_inputs:
-                ofile.write("if (input_vars_use) then", 3)
-                # elements which have not been written out
-            # end if
-            API.write_var_set_loop(ofile, 'variable_list', leaf_list, 4,
-                                   add_allocate=False, start_var="num_vars",
-                                   start_index=1)
-            if leaf_list:
-                ofile.write("num_vars = num_vars + {}".format(len(leaf_list)),
-                            4)
-            # end if
-            leaf_start += len(leaf_list)
-            elem_start += len(leaf_list)
-            leaf_list = input_vars[1].difference(leaf_written_set)
-            leaf_written_set.union(input_vars[1])
-            if elem_list or leaf_list:
-                ofile.write("if (struct_elements_use) then", 4)
-                API.write_var_set_loop(ofile, 'variable_list', elem_list, 5,
-                                       add_allocate=False,
-                                       start_index=elem_start)
-                elem_start += len(elem_list) - 1
-                ofile.write("num_vars = {}".format(elem_start), 5)
-                ofile.write("else", 4)
-                API.write_var_set_loop(ofile, 'variable_list', leaf_list, 5,
-                                       add_allocate=False,
-                                       start_index=leaf_start)
-                leaf_start += len(leaf_list) - 1
-                ofile.write("num_vars = {}".format(leaf_start), 5)
-                ofile.write("end if", 4)
-            # end if
-            if have_inputs:
-                ofile.write("end if", 3)
-            # end if
-            # Write output variables
-            leaf_list = sorted(output_vars[0].difference(leaf_written_set))
-            leaf_written_set = leaf_written_set.union(output_vars[0])
-            elem_written_set = elem_written_set.union(output_vars[0])
-            elem_list = sorted(output_vars[2].difference(elem_written_set))
-            elem_written_set = elem_written_set.union(output_vars[2])
-            have_outputs = elem_list or leaf_list
-            if have_outputs:
-                ofile.write("if (output_vars_use) then", 3)
-            # end if
-            leaf_start = 1
-            API.write_var_set_loop(ofile, 'variable_list', leaf_list, 4,
-                                   add_allocate=False, start_var="num_vars",
-                                   start_index=leaf_start)
-            leaf_start += len(leaf_list)
-            elem_start = leaf_start
-            leaf_list = output_vars[1].difference(leaf_written_set)
-            leaf_written_set.union(output_vars[1])
-            if elem_list or leaf_list:
-                ofile.write("if (struct_elements_use) then", 4)
-                API.write_var_set_loop(ofile, 'variable_list', elem_list, 5,
-                                       add_allocate=False, start_var="num_vars",
-                                       start_index=elem_start)
-                elem_start += len(elem_list)
-                ofile.write("else", 4)
-                API.write_var_set_loop(ofile, 'variable_list', leaf_list, 5,
-                                       add_allocate=False, start_var="num_vars",
-                                       start_index=leaf_start)
-                leaf_start += len(leaf_list)
-                ofile.write("end if", 4)
-            # end if
-            if leaf_cross_list or elem_cross_list:
-                ofile.write("if (.not. input_vars_use) then", 4)
-                API.write_var_set_loop(ofile, 'variable_list', leaf_cross_list,
-                                       5, add_allocate=False,
-                                       start_var="num_vars",
-                                       start_index=leaf_start)
-                leaf_start += len(leaf_cross_list)
-                elem_start += len(leaf_cross_list)
-                if elem_cross_list or simp_cross_list:
-                    ofile.write("if (struct_elements_use) then", 5)
+            req_vars = [i | io for i, io in zip(input_vars, inout_vars)]
+            res_vars = [o | io for o, io in zip(output_vars, inout_vars)]
+            all_vars = [i | o for i, o in zip(req_vars, res_vars)]
+            cond_str = ''
+            for cond, var_sets in (("input_vars_use .and. output_vars_use",
+                                    all_vars),
+                                   ("input_vars_use", req_vars),
+                                   ("output_vars_use", res_vars)):
+                ofile.write(f"{cond_str}if ({cond}) then", 3)
+                cond_str = 'else '
+                leaves, arrays, elements = var_sets
+                if arrays or elements:
+                    ofile.write("if (struct_elements_use) then", 4)
                     API.write_var_set_loop(ofile, 'variable_list',
-                                           elem_cross_list, 6,
-                                           add_allocate=False,
-                                           start_var="num_vars",
-                                           start_index=elem_start)
-                    elem_start += len(elem_list)
-                    ofile.write("else", 5)
+                                           leaves | elements, 5)
+                    ofile.write("else", 4)
                     API.write_var_set_loop(ofile, 'variable_list',
-                                           leaf_cross_list, 6,
-                                           add_allocate=False,
-                                           start_var="num_vars",
-                                           start_index=leaf_start)
-                    leaf_start += len(leaf_list)
-                    ofile.write("end if", 5)
+                                           leaves | arrays, 5)
+                    ofile.write("end if", 4)
+                else:
+                    API.write_var_set_loop(ofile, 'variable_list', leaves, 4)
                 # end if
-                ofile.write("end if", 4)
-            if have_outputs:
-                ofile.write("end if", 3)
-            # end if
+            # end for
+            ofile.write("else", 3)
+            ofile.write("allocate(variable_list(0))", 4)
+            ofile.write("end if", 3)
             else_str = 'else '
         # end for
         ofile.write("else", 2)
-- 
2.43.0


From c068813bff00dacf27fb7b3e60e820e883ad13ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 04/80] fix: give suite-held arrays the right dimensions in
 every suite and phase

Promoting a group variable to the suite changed the dimensions in the scheme's
metadata, which is shared by all suites; time step variables were allocated in
a routine without their dimensions; dimension names could clash.
---
 scripts/ccpp_suite.py    | 47 +++++++++++++++++++---------------------
 scripts/metavar.py       |  2 +-
 scripts/suite_objects.py | 15 ++++++++-----
 3 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index a991895..d8044b8 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -312,35 +312,32 @@ character(len=16) :: {css_var_name} = '{state}'
                     var.source = ParseSource(API_SOURCE_NAME,
                                              _API_SUITE_VAR_NAME,
                                              var.context)
+                    # A suite variable holds the full horizontal dimension.
+                    # Do not modify the dimensions of the original variable,
+                    # it belongs to the scheme's metadata (used by all suites)
+                    dims = list(var.get_dimensions())
+                    for idx, dim in enumerate(dims):
+                        if is_horizontal_dimension(dim):
+                            if 'horizontal_loop' in dim:
+                                dims[idx] = 'ccpp_constant_one:horizontal_dimension'
+                            # end if
+                        # end if
+                    # end for
+                    var = var.clone({'dimensions': dims})
                     self.add_variable(var, self.__run_env)
                     # Remove the variable from the group
                     group.remove_variable(standard_name)
                     # Make sure the variable's dimensions are available
-                    # at the init stage (for allocation)
-                    for group in self.groups:
-                        # only add dimension variables to init phase calling list
-                        if group.name == self.__suite_init_group.name:
-                            dims = var.get_dimensions()
-                            # replace horizontal loop dimension if necessary
-                            for idx, dim in enumerate(dims):
-                                if is_horizontal_dimension(dim):
-                                    if 'horizontal_loop' in dim:
-                                        dims[idx] = 'ccpp_constant_one:horizontal_dimension'
-                                    # end if
-                                # end if
-                            # end for
-                            subst_dict = {'dimensions': dims}
-                            prop_dict = var.copy_prop_dict(subst_dict=subst_dict)
-                            temp_var = Var(prop_dict,
-                                           ParseSource(var.get_prop_value('scheme'),
-                                           var.get_prop_value('local_name'), var.context),
-                                           self.__run_env)
-                            # Add dimensions if they're not already there
-                            group.add_variable_dimensions(temp_var, [],
-                                                          adjust_intent=True,
-                                                          to_dict=group.call_list)
-                        # end if
-                    # end for
+                    # in the phase where it will be allocated
+                    if var.get_prop_value('persistence') == 'timestep':
+                        alloc_group = self.__timestep_init_group
+                    else:
+                        alloc_group = self.__suite_init_group
+                    # end if
+                    # Add dimensions if they're not already there
+                    alloc_group.add_variable_dimensions(var, [],
+                                                        adjust_intent=True,
+                                                        to_dict=alloc_group.call_list)
                 else:
                     emsg = ("Group, {}, claimed it had created {} "
                             "but variable was not found")
diff --git a/scripts/metavar.py b/scripts/metavar.py
index 562df58..33afa2f 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1750,7 +1750,7 @@ class VarDictionary(OrderedDict):
                 if dvar and (dvar.source.ptype not in ignore_sources):
                     if to_dict:
                         to_dict.add_variable(dvar, self.__run_env,
-                                             exists_ok=True,
+                                             exists_ok=True, gen_unique=True,
                                              adjust_intent=adjust_intent)
                     else:
                         self.add_variable(dvar, self.__run_env, exists_ok=True,
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 4fac98b..0c6ceda 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1239,17 +1239,18 @@ class Scheme(SuiteObject):
                         raise ParseInternalError(errmsg)
                     # end if
                     # The Group will manage this variable
-                    self.__group.manage_variable(var)
-                    self.add_call_list_variable(var)
+                    gvar = self.__group.manage_variable(var)
+                    # Use the group's dimensions (loop substitutions)
+                    self.add_call_list_variable(var.clone({'dimensions':gvar.get_dimensions()}))
                 elif def_val and (vintent != 'out'):
                     if self.__group is None:
                         errmsg = 'Group not defined for {}'.format(self.name)
                         raise ParseInternalError(errmsg)
                     # end if
                     # The Group will manage this variable
-                    self.__group.manage_variable(var)
+                    gvar = self.__group.manage_variable(var)
                     # We still need it in our call list (the group uses a clone)
-                    self.add_call_list_variable(var)
+                    self.add_call_list_variable(var.clone({'dimensions':gvar.get_dimensions()}))
                 else:
                     errmsg = 'Input argument for {}, {}, not found.'
                     if self.find_variable(source_var=var) is not None:
@@ -2221,9 +2222,10 @@ class Group(SuiteObject):
     def manage_variable(self, newvar):
         """Add <newvar> to our local dictionary making necessary
         modifications to the variable properties so that it is
-        allocated appropriately"""
+        allocated appropriately. Return the managed variable."""
         # Need new prop dict to eliminate unwanted properties (e.g., intent)
-        vdims = newvar.get_dimensions()
+        # (use a copy of the dimensions, <newvar> may be scheme metadata)
+        vdims = list(newvar.get_dimensions())
         # Look for dimensions where we have a loop substitution and replace
         # with the correct size
         if self.run_phase():
@@ -2281,6 +2283,7 @@ class Group(SuiteObject):
         if emsg:
             raise CCPPError(emsg)
         # end if
+        return local_var
 
     def analyze(self, phase, suite_vars, scheme_library, ddt_library,
                 check_suite_state, set_suite_state):
-- 
2.43.0


From 45f3bb1eb93e6c0efc43aca4546a96872d159215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 05/80] fix: accept suite-held arrays whatever dimension
 arguments a scheme has

---
 scripts/suite_objects.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 0c6ceda..a5883a2 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1209,6 +1209,18 @@ class Scheme(SuiteObject):
             args = self.match_variable(var, self.run_env)
             found, dict_var, vert_dim, new_dims, missing_vert, compat_obj = args
             if found:
+                if self.run_phase() and SuiteObject.is_suite_variable(dict_var):
+                    # The dimensions of suite variables are used in the call
+                    sdims = dict_var.get_dimensions()
+                    self.__group.add_loop_substitutions(sdims)
+                    sdims = [x for x in sdims if not is_horizontal_dimension(x)]
+                    svar = dict_var.clone({'dimensions':sdims})
+                    emsg = self.__group.add_variable_dimensions(svar, [],
+                                                                to_dict=self.__group.call_list)
+                    if emsg:
+                        raise CCPPError(emsg)
+                    # end if
+                # end if
                 if self.__group.run_env.debug:
                     # Add variable allocation checks for group, suite and host variables
                     if dict_var:
@@ -2219,6 +2231,16 @@ class Group(SuiteObject):
         # end if
         return False
 
+    def add_loop_substitutions(self, dims):
+        """Make sure that any loop substitution needed for a horizontal
+        dimension in <dims> is available in this (run phase) Group."""
+        for dim in dims:
+            if is_horizontal_dimension(dim):
+                vmatch = VarDictionary.loop_var_match('horizontal_loop_extent')
+                self.add_variable_to_call_tree(None, vmatch=vmatch)
+            # end if
+        # end for
+
     def manage_variable(self, newvar):
         """Add <newvar> to our local dictionary making necessary
         modifications to the variable properties so that it is
@@ -2229,6 +2251,8 @@ class Group(SuiteObject):
         # Look for dimensions where we have a loop substitution and replace
         # with the correct size
         if self.run_phase():
+            # Make sure any needed loop substitution is available
+            self.add_loop_substitutions(vdims)
             hdims = [x.missing_stdname for x in self._loop_var_matches]
         else:
             # Do not do loop substitutions in full phases
-- 
2.43.0


From 050a366928dc2bd88a224ba7737f2dd4f3702fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:46 +0000
Subject: [PATCH 06/80] fix: convert and pass optional, converted and
 conditional arguments by their own names

Local copies and pointers for converted and optional arguments were named and
declared from one scheme's argument and used for another's; dummy arguments of
a group had the kind and units of the first scheme; conversions were applied
to inactive variables, and not to output-only arguments; variables used in
'active' conditions had to be requested by a scheme.
---
 scripts/metavar.py       |  11 +-
 scripts/suite_objects.py | 429 ++++++++++++++++++++++-----------------
 2 files changed, 253 insertions(+), 187 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index 33afa2f..3e35457 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1022,8 +1022,12 @@ class Var:
                     conditional += item
                 except ValueError:
                     dvar = None
-                    for vdict in vdicts:
-                        dvar = vdict.find_variable(standard_name=item, any_scope=True) # or any_scope=False ?
+                    # First, look for the name used in the current scope
+                    for any_scope in [False, True]:
+                        for vdict in vdicts:
+                            dvar = vdict.find_variable(standard_name=item, any_scope=any_scope)
+                            if dvar:
+                                break
                         if dvar:
                             break
                     if not dvar:
@@ -1144,7 +1148,8 @@ class Var:
                                   name=name, dims=dimstr, cspace=cspace,
                                   sname=stdname), indent)
 
-    def write_ptr_def(self, outfile, indent, name, kind, dimstr, vtype, extra_space=0):
+    @staticmethod
+    def write_ptr_def(outfile, indent, name, kind, dimstr, vtype, extra_space=0):
         """Write the definition line for local null pointer declaration to <outfile>."""
         comma = ', '
         if kind:
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index a5883a2..71a1da4 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -105,14 +105,15 @@ class CallList(VarDictionary):
         super().add_variable(newvar, run_env, exists_ok=exists_ok,
                              gen_unique=gen_unique, adjust_intent=adjust_intent)
 
-    def call_string(self, cldicts=None, is_func_call=False, subname=None, sub_lname_list=None):
+    def call_string(self, cldicts=None, is_func_call=False, subname=None, sub_lnames=None):
         """Return a dummy argument string for this call list.
         <cldict> may be a list of VarDictionary objects to search for
         local_names (default is to use self).
         <is_func_call> should be set to True to construct a call statement.
         If <is_func_call> is False, construct a subroutine dummy argument
         list.
-        <sub_lname_list> may be a list of local_name substitutions.
+        <sub_lnames> may be a dictionary of local_name substitutions with
+           standard names as keys.
         """
         arg_str = ""
         arg_sep = ""
@@ -142,11 +143,6 @@ class CallList(VarDictionary):
                         raise CCPPError(errmsg.format(stdname, clnames))
                     # end if
                     lname = dvar.get_prop_value('local_name')
-                    # Optional variables in the caps are associated with 
-                    # local pointers of <lname>_ptr
-                    if dvar.get_prop_value('optional'):
-                        lname = dummy+'_ptr'
-                    # end if
                 else:
                     cldict = None
                     aref = var.array_ref(local_name=dummy)
@@ -157,15 +153,11 @@ class CallList(VarDictionary):
                     # end if
                 # end if
                 # Modify Scheme call_list to handle local_name change for this var.
-                # Are there any variable transforms for this scheme?
-                # If so, change Var's local_name need to local dummy array containing
-                # transformed argument, var_trans_local.
-                if sub_lname_list:
-                    for (var_trans_local, var_lname, sname, rindices, lindices, compat_obj) in sub_lname_list:
-                        if (sname == stdname):
-                            lname = var_trans_local
-                        # end if
-                    # end for
+                # Is there a variable transform or a conditional association
+                # for this scheme?
+                subst = sub_lnames is not None and (stdname in sub_lnames)
+                if subst:
+                    lname = sub_lnames[stdname]
                 # end if
                 if is_func_call:
                     if cldicts is not None:
@@ -175,7 +167,9 @@ class CallList(VarDictionary):
                     # end if
                     run_phase = self.routine.run_phase()
                     # We only need dimensions for suite variables in run phase
-                    need_dims = SuiteObject.is_suite_variable(dvar) and run_phase
+                    # (but not for a local copy)
+                    need_dims = (SuiteObject.is_suite_variable(dvar) and
+                                 run_phase and not subst)
                     vdims = var.call_dimstring(var_dicts=use_dicts,
                                                explicit_dims=need_dims,
                                                loop_subst=run_phase)
@@ -925,6 +919,15 @@ class SuiteObject(VarDictionary):
             else:
                 sdict = {'dimensions':new_dict_dims}
             # end if
+            # The data provided to the parent have the kind and the units of
+            # <dict_var>, any conversion is done when calling this Scheme
+            if (var.get_prop_value('units') != dict_var.get_prop_value('units')):
+                sdict['units'] = dict_var.get_prop_value('units')
+            # end if
+            if ((var.get_prop_value('type').lower() == 'real') and
+                (var.get_prop_value('kind') != dict_var.get_prop_value('kind'))):
+                sdict['kind'] = dict_var.get_prop_value('kind')
+            # end if
             found_var = self.parent.add_variable_to_call_tree(var,
                                                               subst_dict=sdict)
             if not match:
@@ -1136,6 +1139,7 @@ class Scheme(SuiteObject):
         self.__reverse_transforms = list()
         self._has_run_phase = True
         self.__optional_vars = list()
+        self.__local_subst = dict() # Call list substitutions (by standard name)
         super().__init__(name, context, parent, run_env, active_call_list=True)
 
     def update_group_call_list_variable(self, var):
@@ -1161,7 +1165,7 @@ class Scheme(SuiteObject):
                     gvar = None
                 # end if
             if gvar is None:
-                my_group.add_call_list_variable(var)
+                my_group.add_call_list_variable(var, gen_unique=True)
             # end if
         # end if
 
@@ -1281,20 +1285,35 @@ class Scheme(SuiteObject):
                 # end if
             # end if
             # Are there any forward/reverse transforms for this variable?
-            has_transform = False
+            trans_name = None
             if compat_obj is not None and (compat_obj.has_vert_transforms or
                                            compat_obj.has_unit_transforms or
                                            compat_obj.has_kind_transforms):
-                self.add_var_transform(var, compat_obj, vert_dim)
-                has_transform = True
+                trans_name = self.add_var_transform(var, dict_var, compat_obj,
+                                                    vert_dim)
+                self.__local_subst[vstdname] = trans_name
             # end if
 
             # Is this a conditionally allocated variable?
             # If so, declare localpointer variable. This is needed to
             # pass inactive (not present) status through the caps.
-            if var.get_prop_value('optional'):
-                newvar_ptr = var.clone(var.get_prop_value('local_name')+'_ptr')
-                self.__optional_vars.append([dict_var, var, newvar_ptr, has_transform])
+            if var.get_prop_value('optional') and self.is_conditional(dict_var):
+                if dict_var is not None:
+                    # The variables used in the condition are needed
+                    var_dicts = [self.__group.call_list, self.__group.suite]
+                    (_, vars_needed) = dict_var.conditional(var_dicts)
+                    for var_needed in vars_needed:
+                        self.update_group_call_list_variable(var_needed)
+                    # end for
+                # end if
+                if (dict_var is None) or trans_name:
+                    ptr_target = var
+                else:
+                    ptr_target = dict_var
+                # end if
+                ptr_name = self.__group.add_local_pointer(var, ptr_target)
+                self.__local_subst[vstdname] = ptr_name
+                self.__optional_vars.append([dict_var, var, ptr_name, trans_name])
             # end if
 
         # end for
@@ -1600,64 +1619,65 @@ class Scheme(SuiteObject):
                 # end if
                 outfile.write('',indent)
 
-    def associate_optional_var(self, dict_var, var, var_ptr, has_transform, cldicts, indent, outfile):
+    @staticmethod
+    def is_conditional(dict_var):
+        """Return True iff <dict_var> may be inactive (includes None, i.e.,
+        a variable which is not provided at all)"""
+        if dict_var is None:
+            return True
+        # end if
+        return dict_var.get_prop_value('active').lower() != '.true.'
+
+    def provided_variable(self, var, cldicts):
+        """Return the variable which has the data for <var> in the Group"""
+        stdname = var.get_prop_value('standard_name')
+        for cldict in cldicts:
+            dvar = cldict.find_variable(standard_name=stdname, any_scope=False)
+            if dvar is not None:
+                return dvar
+            # end if
+        # end for
+        emsg = "{}: '{}', not found in call list"
+        raise CCPPError(emsg.format(self.subroutine_name, stdname))
+
+    def associate_optional_var(self, dict_var, var, ptr_name, trans_name, cldicts, indent, outfile):
         """Write local pointer association for optional variables."""
-        if (dict_var):
+        # Clear any association from a previous call
+        outfile.write(f"nullify({ptr_name})", indent)
+        if dict_var:
             (conditional, _) = dict_var.conditional(cldicts)
-            if (has_transform):
-                lname = var.get_prop_value('local_name')+'_local'
+            if trans_name:
+                lname = trans_name
             else:
-                lname = var.get_prop_value('local_name')
+                lname = self.provided_variable(var, cldicts).get_prop_value('local_name')
             # end if
-            lname_ptr = var_ptr.get_prop_value('local_name')
-            outfile.write(f"if {conditional} then", indent)
-            outfile.write(f"{lname_ptr} => {lname}", indent+1)
+            outfile.write(f"if ({conditional}) then", indent)
+            outfile.write(f"{ptr_name} => {lname}", indent+1)
             outfile.write(f"end if", indent)
         # end if
 
-    def assign_pointer_to_var(self, dict_var, var, var_ptr, has_transform, cldicts, indent, outfile):
-        """Assign local pointer to variable."""
-        if (dict_var):
-            intent = var.get_prop_value('intent')
-            if (intent == 'out' or intent == 'inout'):
-                (conditional, _) = dict_var.conditional(cldicts)
-                if (has_transform):
-                    lname = var.get_prop_value('local_name')+'_local'
-                else:
-                    lname = var.get_prop_value('local_name')
-                # end if
-                lname_ptr = var_ptr.get_prop_value('local_name')
-                outfile.write(f"if {conditional} then", indent)
-                outfile.write(f"{lname} = {lname_ptr}", indent+1)
-                outfile.write(f"end if", indent)
-            # end if
-        # end if
-
-    def add_var_transform(self, var, compat_obj, vert_dim):
+    def add_var_transform(self, var, dict_var, compat_obj, vert_dim):
         """Register any variable transformation needed by <var> for this Scheme.
+        <dict_var> is the variable which provides the data.
         For any transformation identified in <compat_obj>, create dummy variable
         from <var> to perform the transformation. Determine the indices needed
-        for the transform and save for use during write stage"""
+        for the transform and save for use during write stage.
+        Return the name of the dummy variable."""
 
         # Add local variable (<var(local_name)>_local) needed for transformation.
         # Do not let the Group manage this variable. Handle local var
         # when writing Group.
         prop_dict = var.copy_prop_dict()
-        prop_dict['local_name'] = var.get_prop_value('local_name')+'_local'
         # This is a local variable.
         if 'intent' in prop_dict:
             del prop_dict['intent']
         # end if
-        local_trans_var = Var(prop_dict,
-                              ParseSource(_API_SOURCE_NAME,
-                                          _API_LOCAL_VAR_NAME, var.context),
-                              self.run_env)
-        found = self.__group.find_variable(source_var=local_trans_var, any_scope=False)
-        if not found:
-            lmsg = "Adding new local variable, '{}', for variable transform"
-            self.run_env.logger.info(lmsg.format(local_trans_var.get_prop_value('local_name')))
-            self.__group.transform_locals.append(local_trans_var)
+        if 'optional' in prop_dict:
+            # May be associated with a local pointer
+            prop_dict['target'] = var.get_prop_value('optional')
+            del prop_dict['optional']
         # end if
+        trans_name = self.__group.add_transform_local(prop_dict, var.context)
 
         # Create indices (default) for transform.
         lindices   = [':']*var.get_rank()
@@ -1666,29 +1686,18 @@ class Scheme(SuiteObject):
         # If needed, modify vertical dimension for vertical orientation flipping
         _, vdim    = find_vertical_dimension(var.get_dimensions())
         if vdim >= 0:
-           vdims  = vert_dim.split(':')
-           vdim_name  = vdims[-1]
-           group_vvar = self.__group.call_list.find_variable(vdim_name)
-           if group_vvar is None:
-               raise CCPPError(f"add_var_transform: Cannot find dimension variable, {vdim_name}")
-           # end if
-           vname = group_vvar.get_prop_value('local_name')
-           if len(vdims) == 2:
-               sdim_name = vdims[0]
-               group_vvar = self.find_variable(sdim_name)
-               if group_vvar is None:
-                   raise CCPPError(f"add_var_transform: Cannot find dimension variable, {sdim_name}")
-               # end if
-               sname = group_vvar.get_prop_value('local_name')
-           else:
-               sname = '1'
-           # end if
-           lindices[vdim] = sname+':'+vname
-           if compat_obj.has_vert_transforms:
-               rindices[vdim] = vname+':'+sname+':-1'
-           else:
-               rindices[vdim] = sname+':'+vname
-           # end if
+            vdims  = vert_dim.split(':')
+            if len(vdims) == 2:
+                lindices[vdim] = vert_dim
+            else:
+                lindices[vdim] = 'ccpp_constant_one:' + vert_dim
+            # end if
+            if compat_obj.has_vert_transforms:
+                begin, end = lindices[vdim].split(':')
+                rindices[vdim] = end + ':' + begin + ':-1'
+            else:
+                rindices[vdim] = lindices[vdim]
+            # end if
         # end if
 
         # If needed, modify horizontal dimension for loop substitution.
@@ -1696,17 +1705,15 @@ class Scheme(SuiteObject):
         #hdim = find_horizontal_dimension(var.get_dimensions())
         #if compat_obj.has_dim_transforms:
 
-        # Register any reverse (pre-Scheme) transforms. Also, save local_name used in
-        # transform (used in write stage).
+        # Register any reverse (pre-Scheme) transforms. The local names used
+        # in the transform are determined in the write stage.
         if (var.get_prop_value('intent') != 'out'):
             lmsg = "Automatic unit conversion from '{}' to '{}' for '{}' before entering '{}'"
             self.run_env.logger.info(lmsg.format(compat_obj.v2_units,
                                                  compat_obj.v1_units,
                                                  compat_obj.v2_stdname,
                                                  compat_obj.v1_stdname))
-            self.__reverse_transforms.append([local_trans_var.get_prop_value('local_name'),
-                                              var.get_prop_value('local_name'),
-                                              var.get_prop_value('standard_name'),
+            self.__reverse_transforms.append([var, dict_var, trans_name,
                                               rindices, lindices, compat_obj])
         # end if
         # Register any forward (post-Scheme) transforms.
@@ -1716,20 +1723,79 @@ class Scheme(SuiteObject):
                                                  compat_obj.v2_units,
                                                  compat_obj.v1_stdname,
                                                  compat_obj.v2_stdname))
-            self.__forward_transforms.append([var.get_prop_value('local_name'),
-                                              var.get_prop_value('standard_name'),
-                                              local_trans_var.get_prop_value('local_name'),
-                                              lindices, rindices, compat_obj])
+            self.__forward_transforms.append([var, dict_var, trans_name,
+                                              rindices, lindices, compat_obj])
         # end if
+        return trans_name
+
+    def transform_indices(self, indices, cldicts):
+        """Return <indices> with standard names replaced by local names"""
+        new_indices = list()
+        for index in indices:
+            parts = list()
+            for part in index.split(':'):
+                if (not part) or (part == '-1'):
+                    parts.append(part)
+                elif part == 'ccpp_constant_one':
+                    parts.append('1')
+                else:
+                    pvar = None
+                    for cldict in cldicts:
+                        pvar = cldict.find_variable(standard_name=part,
+                                                    any_scope=False)
+                        if pvar is not None:
+                            break
+                        # end if
+                    # end for
+                    if pvar is None:
+                        emsg = f"add_var_transform: Cannot find dimension variable, {part}"
+                        raise CCPPError(emsg)
+                    # end if
+                    parts.append(pvar.get_prop_value('local_name'))
+                # end if
+            # end for
+            new_indices.append(':'.join(parts))
+        # end for
+        return new_indices
+
+    def write_var_transforms(self, transforms, cldicts, outfile, indent, forward):
+        """Write the variable <transforms> needed before (<forward> is False)
+        or after (<forward> is True) the Scheme call.
+        The transform of a conditionally allocated variable is only done
+        if that variable is active."""
+        for var, dict_var, dummy, rindices, lindices, compat_obj in transforms:
+            dvar = self.provided_variable(var, cldicts)
+            if self.run_phase() and SuiteObject.is_suite_variable(dvar):
+                # A suite variable has the full horizontal dimension
+                _, hdim = find_horizontal_dimension(var.get_dimensions())
+                if hdim >= 0:
+                    rindices[hdim] = 'horizontal_loop_begin:horizontal_loop_end'
+                # end if
+            # end if
+            lname = dvar.get_prop_value('local_name')
+            conditional = '.true.'
+            tmp_indent = indent
+            if self.is_conditional(dict_var):
+                (conditional, _) = dict_var.conditional(cldicts)
+                outfile.write(f"if ({conditional}) then", indent)
+                tmp_indent = indent + 1
+            # end if
+            self.write_var_transform(lname, dummy,
+                                     self.transform_indices(rindices, cldicts),
+                                     self.transform_indices(lindices, cldicts),
+                                     compat_obj, outfile, tmp_indent, forward)
+            if tmp_indent > indent:
+                outfile.write("end if", indent)
+            # end if
+        # end for
+
     def write_var_transform(self, var, dummy, rindices, lindices, compat_obj,
                             outfile, indent, forward):
         """Write variable transformation needed to call this Scheme in <outfile>.
         <var> is the variable that needs transformation before and after calling Scheme.
         <dummy> is the local variable needed for the transformation..
-        <lindices> are the LHS indices of <dummy> for reverse transforms (before Scheme).
-        <rindices> are the RHS indices of <var>   for reverse transforms (before Scheme).
-        <lindices> are the LHS indices of <var>   for forward transforms (after  Scheme).
-        <rindices> are the RHS indices of <dummy> for forward transforms (after  Scheme).
+        <lindices> are the indices of <dummy>.
+        <rindices> are the indices of <var>.
         """
         #
         # Write reverse (pre-Scheme) transform.
@@ -1744,7 +1810,7 @@ class Scheme(SuiteObject):
         # Write forward (post-Scheme) transform.
         #
         else:
-            # var(lindices) = dummy(rindices)
+            # var(rindices) = dummy(lindices)
             stmt = compat_obj.forward_transform(lvar_lname=var,
                                                 rvar_lname=dummy,
                                                 lvar_indices=rindices,
@@ -1763,7 +1829,7 @@ class Scheme(SuiteObject):
         my_args = self.call_list.call_string(cldicts=cldicts,
                                              is_func_call=True,
                                              subname=self.subroutine_name,
-                                             sub_lname_list = self.__reverse_transforms)
+                                             sub_lnames=self.__local_subst)
         #
         outfile.write('', indent)
         outfile.write('if ({} == 0) then'.format(errcode), indent)
@@ -1791,16 +1857,8 @@ class Scheme(SuiteObject):
         if len(self.__reverse_transforms) > 0:
             outfile.comment('Compute reverse (pre-scheme) transforms', indent+1)
         # end if
-        for rcnt, (dummy, var_lname, var_sname, rindices, lindices, compat_obj) in enumerate(self.__reverse_transforms):
-            # Any transform(s) were added during the Group's analyze phase, but
-            # the local_name(s) of the <var> assoicated with the transform(s)
-            # may have since changed. Here we need to use the standard_name
-            # from <var> and replace its local_name with the local_name from the
-            # Group's call_list.
-            lvar       = self.__group.call_list.find_variable(standard_name=var_sname)
-            lvar_lname = lvar.get_prop_value('local_name')
-            tstmt = self.write_var_transform(lvar_lname, dummy, rindices, lindices, compat_obj, outfile, indent+1, False)
-        # end for
+        self.write_var_transforms(self.__reverse_transforms, cldicts, outfile,
+                                  indent+1, False)
         outfile.write('',indent+1)
         #
         # Associate any conditionally allocated variables.
@@ -1808,8 +1866,8 @@ class Scheme(SuiteObject):
         if self.__optional_vars:
             outfile.write('! Associate conditional variables', indent+1)
         # end if 
-        for (dict_var, var, var_ptr, has_transform) in self.__optional_vars:
-            tstmt = self.associate_optional_var(dict_var, var, var_ptr, has_transform, cldicts, indent+1, outfile)
+        for (dict_var, var, ptr_name, trans_name) in self.__optional_vars:
+            self.associate_optional_var(dict_var, var, ptr_name, trans_name, cldicts, indent+1, outfile)
         # end for
         # 
         # Write the scheme call.
@@ -1822,33 +1880,13 @@ class Scheme(SuiteObject):
             outfile.write('',indent+1)
         # end if
         #
-        # Copy any local pointers.
-        #
-        first_ptr_declaration=True
-        for (dict_var, var, var_ptr, has_transform) in self.__optional_vars:
-            if first_ptr_declaration: 
-                outfile.write('! Copy any local pointers to dummy/local variables', indent+1)
-                first_ptr_declaration=False
-            # end if
-            tstmt = self.assign_pointer_to_var(dict_var, var, var_ptr, has_transform, cldicts, indent+1, outfile)
-        # end for
-        outfile.write('',indent+1)
-        #
         # Write any forward (post-Scheme) transforms.
         #
         if len(self.__forward_transforms) > 0:
             outfile.comment('Compute forward (post-scheme) transforms', indent+1)
         # end if
-        for fcnt, (var_lname, var_sname, dummy, lindices, rindices, compat_obj) in enumerate(self.__forward_transforms):
-            # Any transform(s) were added during the Group's analyze phase, but
-            # the local_name(s) of the <var> assoicated with the transform(s)
-            # may have since changed. Here we need to use the standard_name
-            # from <var> and replace its local_name with the local_name from the
-            # Group's call_list.
-            lvar       = self.__group.call_list.find_variable(standard_name=var_sname)
-            lvar_lname = lvar.get_prop_value('local_name')
-            tstmt = self.write_var_transform(lvar_lname, dummy, rindices, lindices, compat_obj, outfile, indent+1, True)
-        # end for
+        self.write_var_transforms(self.__forward_transforms, cldicts, outfile,
+                                  indent+1, True)
         outfile.write('', indent)
         outfile.write('end if', indent)
 
@@ -2194,6 +2232,7 @@ class Group(SuiteObject):
         self._set_state = None
         self._ddt_library = None
         self.transform_locals = list()
+        self._local_pointers = dict()
 
     def phase_match(self, scheme_name):
         """If scheme_name matches the group phase, return the group and
@@ -2309,6 +2348,71 @@ class Group(SuiteObject):
         # end if
         return local_var
 
+    def add_transform_local(self, prop_dict, context):
+        """Add a local variable for a variable transform. <prop_dict> has
+        the properties of the Scheme variable to be transformed. A name
+        based on its local name is used unless that name is taken by a
+        different variable. Return the name of the local variable."""
+        base_name = prop_dict['local_name'] + '_local'
+        lname = base_name
+        index = 0
+        new_var = None
+        while new_var is None:
+            prop_dict['local_name'] = lname
+            match = [x for x in self.transform_locals
+                     if x.get_prop_value('local_name').lower() == lname.lower()]
+            if not match:
+                new_var = Var(prop_dict,
+                              ParseSource(_API_SOURCE_NAME,
+                                          _API_LOCAL_VAR_NAME, context),
+                              self.run_env)
+                lmsg = "Adding new local variable, '{}', for variable transform"
+                self.run_env.logger.info(lmsg.format(lname))
+                self.transform_locals.append(new_var)
+            elif dict(match[0].copy_prop_dict()) == prop_dict:
+                new_var = match[0]
+            else:
+                index = index + 1
+                lname = base_name + str(index)
+            # end if
+        # end while
+        # Make sure the dimensions are available
+        if self.run_phase():
+            self.add_loop_substitutions(new_var.get_dimensions())
+        # end if
+        emsg = self.add_variable_dimensions(new_var, [], adjust_intent=True,
+                                            to_dict=self.call_list)
+        if emsg:
+            raise CCPPError(emsg)
+        # end if
+        return lname
+
+    def add_local_pointer(self, var, target):
+        """Make sure that there is a local pointer which can be associated
+        with <target> which has the data of the optional Scheme variable, <var>.
+        Return the name of the pointer."""
+        base_name = var.get_prop_value('local_name') + '_ptr'
+        kind = target.get_prop_value('kind')
+        rank = target.get_rank()
+        if var.is_ddt():
+            vtype = 'type'
+        else:
+            vtype = var.get_prop_value('type')
+        # end if
+        if rank > 0:
+            dimstr = '(:' + ',:'*(rank - 1) + ')'
+        else:
+            dimstr = ''
+        # end if
+        name = base_name
+        index = 0
+        props = (kind, dimstr, vtype)
+        while self._local_pointers.setdefault(name.lower(), (name,) + props)[1:] != props:
+            index = index + 1
+            name = base_name + str(index)
+        # end while
+        return name
+
     def analyze(self, phase, suite_vars, scheme_library, ddt_library,
                 check_suite_state, set_suite_state):
         """Analyze the Group's interface to prepare for writing"""
@@ -2402,8 +2506,7 @@ class Group(SuiteObject):
         subpart_scalar_vars = {}
         allocatable_var_set = set()
         optional_var_set = set()
-        pointer_var_set = list()
-        inactive_var_set = set()
+        pointer_var_set = list(self._local_pointers.values())
         for item in [self]:# + self.parts:
             for var in item.declarations():
                 lname = var.get_prop_value('local_name')
@@ -2423,9 +2526,7 @@ class Group(SuiteObject):
                             if (self.call_list.find_variable(standard_name=sname)):
                                 subpart_optional_vars[lname] = (var, item, opt_var)
                                 optional_var_set.add(lname)
-                            else:
-                                inactive_var_set.add(var)
-                            # end if
+                            # end if (no else, this variable is not used)
                         else:
                             subpart_allocate_vars[lname] = (var, item, opt_var)
                             allocatable_var_set.add(lname)
@@ -2435,56 +2536,16 @@ class Group(SuiteObject):
                     # end if
                 # end if
             # end for
-            # All optional dummy variables within group need to have 
-            # an associated pointer array declared. 
-            for cvar in self.call_list.variable_list():
-                opt_var = cvar.get_prop_value('optional')
-                if opt_var:
-                    name = cvar.get_prop_value('local_name')+'_ptr'
-                    kind = cvar.get_prop_value('kind')
-                    dims = cvar.get_dimensions()
-                    if cvar.is_ddt():
-                        vtype = 'type'
-                    else:
-                        vtype = cvar.get_prop_value('type')
-                    # end if
-                    if dims:
-                        dimstr = '(:' + ',:'*(len(dims) - 1) + ')'
-                    else:
-                        dimstr = ''
-                    # end if
-                    pointer_var_set.append([name,kind,dimstr,vtype])
-                # end if
-            # end for
-            # Any optional arguments that are not requested by the host need to have
-            # a local null pointer passed from the group to the scheme.
-            for ivar in inactive_var_set:
-                name = ivar.get_prop_value('local_name')+'_ptr'
-                kind = ivar.get_prop_value('kind')
-                dims = ivar.get_dimensions()
-                if ivar.is_ddt():
-                    vtype = 'type'
-                else:
-                    vtype = ivar.get_prop_value('type')
-                # end if
-                if dims:
-                    dimstr = '(:' + ',:'*(len(dims) - 1) + ')'
-                else:
-                    dimstr = ''
-                # end if
-                pointer_var_set.append([name,kind,dimstr,vtype])
-            # end for
             # Any arguments used in variable transforms before or after the
             # Scheme call? If so, declare local copy for reuse in the Group cap.
             for ivar in self.transform_locals:
                 lname = ivar.get_prop_value('local_name')
-                opt_var = ivar.get_prop_value('optional')
                 dims = ivar.get_dimensions()
                 if (dims is not None) and dims:
-                    subpart_allocate_vars[lname] = (ivar, item, opt_var)
+                    subpart_allocate_vars[lname] = (ivar, item, False)
                     allocatable_var_set.add(lname)
                 else:
-                    subpart_scalar_vars[lname] = (ivar, item, opt_var)
+                    subpart_scalar_vars[lname] = (ivar, item, False)
                 # end if
             # end for
 
@@ -2558,7 +2619,7 @@ class Group(SuiteObject):
         # end for
         # Pointer variables
         for (name, kind, dim, vtype) in pointer_var_set:
-            var.write_ptr_def(outfile, indent+1, name,  kind, dim, vtype)
+            Var.write_ptr_def(outfile, indent+1, name,  kind, dim, vtype)
         # end for
         outfile.write('', 0)
         # Get error variable names
@@ -2614,7 +2675,7 @@ class Group(SuiteObject):
             alloc_str = self.allocate_dim_str(dims, var.context)
             outfile.write(alloc_stmt.format(lname, alloc_str), indent+1)
         # end for
-        for lname in optional_var_set:
+        for lname in sorted(optional_var_set):
             var = subpart_optional_vars[lname][0]
             dims = var.get_dimensions()
             alloc_str = self.allocate_dim_str(dims, var.context)
@@ -2647,7 +2708,7 @@ class Group(SuiteObject):
         for lname in sorted(allocatable_var_set):
             outfile.write('if (allocated({})) {} deallocate({})'.format(lname,' '*(20-len(lname)),lname), indent+1)
         # end for
-        for lname in optional_var_set:
+        for lname in sorted(optional_var_set):
             outfile.write('if (allocated({})) {} deallocate({})'.format(lname,' '*(20-len(lname)),lname), indent+1)
         # end for
         # Nullify local pointers
-- 
2.43.0


From 169d3934e9712372bc86064394e973e334728894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 07/80] fix: keep local names of suite and group variables
 apart from dummy arguments

---
 scripts/ccpp_suite.py    | 21 ++++++++++++++++++++-
 scripts/metavar.py       | 19 +++++++++++++++++++
 scripts/suite_objects.py | 16 +++++++++++++++-
 3 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index d8044b8..096c005 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -324,7 +324,7 @@ character(len=16) :: {css_var_name} = '{state}'
                         # end if
                     # end for
                     var = var.clone({'dimensions': dims})
-                    self.add_variable(var, self.__run_env)
+                    self.add_variable(var, self.__run_env, gen_unique=True)
                     # Remove the variable from the group
                     group.remove_variable(standard_name)
                     # Make sure the variable's dimensions are available
@@ -519,9 +519,28 @@ character(len=16) :: {css_var_name} = '{state}'
         """Return the constituent dictionary for this suite"""
         return self.parent
 
+    def make_local_names_unique(self):
+        """Make sure that no suite variable is hidden by a dummy argument or
+        a local variable of a group, and that no local variable of a group
+        has the name of a dummy argument.
+        All of these names come from schemes which know nothing about each
+        other. Names are not case sensitive."""
+        dummies = set([Suite.__state_machine_var_name])
+        for group in self.groups:
+            dummies.update(group.dummy_names())
+        # end for
+        reserved = set(dummies)
+        for group in self.groups:
+            group.rename_variables(dummies)
+            reserved.update([x.get_prop_value('local_name').lower()
+                             for x in group.variable_list()])
+        # end for
+        self.rename_variables(reserved)
+
     def write(self, output_dir, run_env):
         """Create caps for all groups in the suite and for the entire suite
         (calling the group caps one after another)"""
+        self.make_local_names_unique()
         # Set name of module and filename of cap
         filename = '{module_name}.F90'.format(module_name=self.module)
         if run_env.verbose:
diff --git a/scripts/metavar.py b/scripts/metavar.py
index 3e35457..ef49c68 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -2085,6 +2085,25 @@ class VarDictionary(OrderedDict):
         """
         return var.call_string(self, loop_vars=loop_vars)
 
+    def rename_variables(self, reserved):
+        """Change the local name of any variable in this dictionary which
+        has one of the (lowercase) names in <reserved> or the same name as
+        another variable in this dictionary."""
+        names = set(reserved)
+        for stdname in list(self.keys()):
+            base_name = self[stdname].get_prop_value('local_name')
+            new_name = base_name
+            index = 0
+            while new_name.lower() in names:
+                index = index + 1
+                new_name = f"{base_name}_{index}"
+            # end while
+            if new_name != base_name:
+                self[stdname] = self[stdname].clone(new_name)
+            # end if
+            names.add(new_name.lower())
+        # end for
+
     def new_internal_variable_name(self, prefix=None, max_len=63):
         """Find a new local variable name for this dictionary.
         The new name begins with <prefix>_<self.name> or with <self.name>
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 71a1da4..8fe55ef 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2338,7 +2338,8 @@ class Group(SuiteObject):
                         ParseSource(_API_SOURCE_NAME,
                                     _API_LOCAL_VAR_NAME, newvar.context),
                         self.run_env)
-        self.add_variable(local_var, self.run_env, exists_ok=True)
+        self.add_variable(local_var, self.run_env, exists_ok=True,
+                          gen_unique=True)
         # Finally, make sure all dimensions are accounted for
         emsg = self.add_variable_dimensions(local_var, _API_LOCAL_VAR_TYPES,
                                             adjust_intent=True,
@@ -2348,6 +2349,19 @@ class Group(SuiteObject):
         # end if
         return local_var
 
+    def dummy_names(self):
+        """Return a set with the (lowercase) names of this Group's dummy
+        arguments and of the local variables used to pass arguments"""
+        names = set()
+        for var in self.call_list.variable_list():
+            names.add(var.get_prop_value('local_name').lower())
+        # end for
+        for var in self.transform_locals:
+            names.add(var.get_prop_value('local_name').lower())
+        # end for
+        names.update(self._local_pointers.keys())
+        return names
+
     def add_transform_local(self, prop_dict, context):
         """Add a local variable for a variable transform. <prop_dict> has
         the properties of the Scheme variable to be transformed. A name
-- 
2.43.0


From 10875ca3ea47705fce9bb5661da209fa9d2cd795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 08/80] fix: build the full reference of components of nested
 DDTs

---
 scripts/ddt_library.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/ddt_library.py b/scripts/ddt_library.py
index 3542559..1ab53bf 100644
--- a/scripts/ddt_library.py
+++ b/scripts/ddt_library.py
@@ -38,12 +38,12 @@ class VarDDT(Var):
         source = var_ref.source
         super().__init__(var_ref, source, run_env, context=source.context)
         # Find the correct place for <new_field>
-        if isinstance(var_ref, Var):
-            # We are at a top level DDT var, set our field
-            self.__field = new_field
-        else:
+        if isinstance(var_ref, VarDDT):
             # Recurse to find correct (tail) location for <new_field>
             self.__field = VarDDT(new_field, var_ref.field, run_env, recur=True)
+        else:
+            # We are at a top level DDT var, set our field
+            self.__field = new_field
         # end if
         if ((not recur) and
             run_env.verbose):
-- 
2.43.0


From 08788d5801158e4e05b0f58d5e27e541b81fc1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 09/80] fix: write DDT use statements in a fixed order

---
 scripts/ddt_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ddt_library.py b/scripts/ddt_library.py
index 1ab53bf..d829cfa 100644
--- a/scripts/ddt_library.py
+++ b/scripts/ddt_library.py
@@ -319,7 +319,7 @@ class DDTLibrary(dict):
         <variable_list>"""
         pad = max(pad, self.__max_mod_name_len)
         ddt_mods = self.ddt_modules(variable_list)
-        for ddt_mod in ddt_mods:
+        for ddt_mod in sorted(ddt_mods):
             dmod = ddt_mod[0]
             dtype = ddt_mod[1]
             slen = ' '*(pad - len(dmod))
-- 
2.43.0


From 47d3a6c6b0af38ad62b46ef0aad9086a5623fed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 10/80] fix: replace output files that changed and leave the
 others alone

---
 scripts/file_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/file_utils.py b/scripts/file_utils.py
index 669922b..cce8fb0 100644
--- a/scripts/file_utils.py
+++ b/scripts/file_utils.py
@@ -289,7 +289,8 @@ def move_modified_files(src_dir, dest_dir, overwrite=False, remove_src=False):
                 if overwrite:
                     fmove = True
                 else:
-                    fmove = filecmp.cmp(src_path, dest_path, shallow=False)
+                    fmove = not filecmp.cmp(src_path, dest_path,
+                                            shallow=False)
                 # end if
             else:
                 fmove = True
-- 
2.43.0


From 939f7d08bf08828e8e6f4fe1b987174858d3fd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 11/80] fix: keep the dynamic constituents of each suite apart
 and allow repeated registration

---
 scripts/constituents.py | 18 +++++++++-------
 scripts/host_cap.py     | 48 ++++++++++++++++++++++++++---------------
 2 files changed, 41 insertions(+), 25 deletions(-)

diff --git a/scripts/constituents.py b/scripts/constituents.py
index a8c1114..37f9eb7 100644
--- a/scripts/constituents.py
+++ b/scripts/constituents.py
@@ -537,15 +537,17 @@ class ConstituentVarDict(VarDictionary):
         # Register dynamic constituents
         cap.comment("Add dynamic constituent properties", 2)
         for dyn_const in dyn_const_names:
-           cap.write(f"do index = 1, size({dyn_const}, 1)", 2)
-           cap.write(f"const_prop => {dyn_const}(index)", 3)
+           cap.write(f"if (allocated({dyn_const})) then", 2)
+           cap.write(f"do index = 1, size({dyn_const}, 1)", 3)
+           cap.write(f"const_prop => {dyn_const}(index)", 4)
            stmt = f"call {const_obj_name}%new_field(const_prop, {obj_err_callstr})"
-           cap.write(stmt, 3)
-           cap.write("nullify(const_prop)", 3)
-           cap.write(f"if ({herrcode} /= 0) then", 3)
-           cap.write("return", 4)
-           cap.write("end if", 3)
-           cap.write("end do", 2)
+           cap.write(stmt, 4)
+           cap.write("nullify(const_prop)", 4)
+           cap.write(f"if ({herrcode} /= 0) then", 4)
+           cap.write("return", 5)
+           cap.write("end if", 4)
+           cap.write("end do", 3)
+           cap.write("end if", 2)
         # end for
 
         # Register suite constituents
diff --git a/scripts/host_cap.py b/scripts/host_cap.py
index f1d2880..8d87f61 100644
--- a/scripts/host_cap.py
+++ b/scripts/host_cap.py
@@ -493,10 +493,12 @@ def add_constituent_vars(cap, host_model, suite_list, run_env):
 
 ###############################################################################
 def suite_part_call_list(host_model, const_dict, suite_part, subst_loop_vars,
-                         dyn_const=False):
+                         dyn_const=None):
 ###############################################################################
     """Return the <host_model> controlled call list for <suite_part>.
-    <const_dict> is the constituent dictionary"""
+    <const_dict> is the constituent dictionary
+    <dyn_const>, if present, is the dictionary of the variables which receive
+       the suite part's dynamic constituents"""
     spart_args = suite_part.call_list.variable_list(loop_vars=subst_loop_vars)
     hmvars = list() # Host model to spart dummy args
     if subst_loop_vars:
@@ -509,7 +511,9 @@ def suite_part_call_list(host_model, const_dict, suite_part, subst_loop_vars,
         sp_lname = sp_var.get_prop_value('local_name')
         if sp_var.get_prop_value('type') == 'ccpp_constituent_properties_t':
             if dyn_const:
-                hmvars.append(f"{sp_lname}={sp_lname}")
+                dvar = dyn_const.find_variable(standard_name=stdname)
+                dlname = dvar.get_prop_value('local_name')
+                hmvars.append(f"{sp_lname}={dlname}")
             # end if
             continue
         # end if
@@ -617,13 +621,20 @@ def write_host_cap(host_model, api, module_name, output_dir, run_env):
                         # Special handling for run-time constituents in register phase
                         if sp_var.get_prop_value('type') == 'ccpp_constituent_properties_t':
                             if spart.phase() == 'register':
-                                prop_dict = {'standard_name' : sp_var.get_prop_value('standard_name'),
-                                             'local_name' : sp_var.get_prop_value('local_name'),
+                                has_dyn_consts = True
+                                if host_local_vars.find_variable(standard_name=stdname):
+                                    continue # Also used by an earlier suite
+                                # end if
+                                lname = sp_var.get_prop_value('local_name')
+                                if host_local_vars.find_local_name(lname):
+                                    lname = host_local_vars.new_internal_variable_name(prefix=lname)
+                                # end if
+                                prop_dict = {'standard_name' : stdname,
+                                             'local_name' : lname,
                                              'dimensions' : '(:)', 'units' : 'none',
                                              'allocatable' : True, 'ddt_type' : 'ccpp_constituent_properties_t'}
                                 newvar = Var(prop_dict, _API_SOURCE, run_env)
                                 host_local_vars.add_variable(newvar, run_env)
-                                has_dyn_consts = True
                                 continue
                             else:
                                 errmsg = f'ccpp_constituent_properties_t object "{stdname}" not allowed in "{spart.phase()}" phase'
@@ -742,33 +753,36 @@ def write_host_cap(host_model, api, module_name, output_dir, run_env):
                     spart = suite.phase_group(stage)
                     dyn_const_array = suite_dynamic_constituent_array_name(host_model, suite.name)
                     call_str = suite_part_call_list(host_model, const_dict, spart, False,
-                                                                       dyn_const=True)
+                                                                       dyn_const=host_local_vars)
                     cap.write(f"call {suite.name}_{stage}({call_str})", 3)
                     cap.write(f"if ({errflg_name} /= 0) then", 3)
                     cap.write("return", 4)
                     cap.write("end if", 3)
                     # Allocate the suite's dynamic constituents array
                     size_string = "0+"
-                    for var in host_local_vars.variable_list():
-                        vtype = var.get_prop_value('type')
+                    suite_dyn_consts = []
+                    for sp_var in spart.call_list.variable_list():
+                        vtype = sp_var.get_prop_value('type')
                         if vtype == 'ccpp_constituent_properties_t':
+                            stdname = sp_var.get_prop_value('standard_name')
+                            var = host_local_vars.find_variable(standard_name=stdname)
                             local_name = var.get_prop_value('local_name')
+                            suite_dyn_consts.append(local_name)
                             size_string += f"size({local_name})+"
                         # end if
                     # end for
-                    if not has_dyn_consts:
+                    cap.write(f"if (allocated({dyn_const_array})) then", 3)
+                    cap.write(f"deallocate({dyn_const_array})", 4)
+                    cap.write("end if", 3)
+                    if not suite_dyn_consts:
                         cap.comment("Suite does not return dynamic constituents; allocate to zero", 3)
                     # end if
                     cap.write(f"allocate({dyn_const_array}({size_string[:-1]}))", 3)
-                    if has_dyn_consts:
+                    if suite_dyn_consts:
                         cap.comment("Pack the suite-level dynamic, run-time constituents array", 3)
                         cap.write("num_dyn_consts = 0", 3)
-                    for var in host_local_vars.variable_list():
-                        vtype = var.get_prop_value('type')
-                        if vtype != 'ccpp_constituent_properties_t':
-                            continue
-                        # end if
-                        local_name = var.get_prop_value('local_name')
+                    # end if
+                    for local_name in suite_dyn_consts:
                         cap.write(f"do const_index = 1, size({local_name})", 3)
                         cap.write(f"{dyn_const_array}(num_dyn_consts + const_index) = {local_name}(const_index)", 4)
                         cap.write("end do", 3)
-- 
2.43.0


From 42625501b0d118c83361845716288c9809b2caa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 12/80] fix: generate loops for subcycles

---
 scripts/suite_objects.py | 73 +++++++++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 27 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 8fe55ef..3443e2d 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2029,21 +2029,10 @@ class Subcycle(SuiteObject):
 
     def __init__(self, sub_xml, context, parent, run_env):
         name = sub_xml.get('name', None) # Iteration count
-        loop_extent = sub_xml.get('loop', "1") # Number of iterations
-        # See if our loop variable is an interger or a variable
-        try:
-            loop_int = int(loop_extent) # pylint: disable=unused-variable
-            self._loop = loop_extent
-            self._loop_var_int = True
-        except ValueError:
-            self._loop_var_int = False
-            lvar = parent.find_variable(standard_name=self.loop, any_scope=True)
-            if lvar is None:
-                emsg = "Subcycle, {}, specifies {} iterations but {} not found"
-                raise CCPPError(emsg.format(name, self.loop, self.loop))
-            # end if
-            parent.add_call_list_variable(lvar)
-        # end try
+        # Number of iterations (an integer or a variable's standard name)
+        self._loop_extent = sub_xml.get('loop', "1").strip().lower()
+        self._group = None # The Group object, set by <analyze>
+        self._index_stdname = None # Standard name of loop index variable
         super().__init__(name, context, parent, run_env)
         for item in sub_xml:
             new_item = new_suite_object(item, context, self, run_env)
@@ -2055,12 +2044,31 @@ class Subcycle(SuiteObject):
         if self.name is None:
             self.name = "subcycle_index{}".format(level)
         # end if
-        # Create a variable for the loop index
-        self.add_variable(Var({'local_name':self.name,
-                               'standard_name':'loop_variable',
-                               'type':'integer', 'units':'count',
-                               'dimensions':'()'}, _API_SOURCE, self.run_env),
-                          self.run_env)
+        self._group = group
+        # Create a variable for the loop index, the Group will manage it
+        base_name = "{}_{}".format(group.name.lower(), self.name.lower())
+        self._index_stdname = base_name
+        index = 0
+        while group.find_variable(standard_name=self._index_stdname):
+            index += 1
+            self._index_stdname = "{}_{}".format(base_name, index)
+        # end while
+        group.manage_variable(Var({'local_name':self.name,
+                                   'standard_name':self._index_stdname,
+                                   'type':'integer', 'units':'count',
+                                   'dimensions':'()'}, _API_LOCAL,
+                                  self.run_env))
+        # Make sure the number of iterations is available
+        if not self.loop_is_integer:
+            lvar = group.find_variable(standard_name=self._loop_extent,
+                                       any_scope=True)
+            if lvar is None:
+                emsg = "Subcycle, {}, specifies {} iterations but {} not found"
+                raise CCPPError(emsg.format(self.name, self._loop_extent,
+                                            self._loop_extent))
+            # end if
+            self.add_variable_to_call_tree(lvar)
+        # end if
         # Handle all the suite objects inside of this subcycle
         scheme_mods = set()
         for item in self.parts:
@@ -2074,23 +2082,34 @@ class Subcycle(SuiteObject):
 
     def write(self, outfile, errcode, errmsg, indent):
         """Write code for the subcycle loop, including contents, to <outfile>"""
-        outfile.write('do {} = 1, {}'.format(self.name, self.loop), indent)
+        lvar = self._group.find_variable(standard_name=self._index_stdname)
+        outfile.write('do {} = 1, {}'.format(lvar.get_prop_value('local_name'),
+                                             self.loop), indent)
         # Note that 'scheme' may be a sybcycle or other construct
         for item in self.parts:
             item.write(outfile, errcode, errmsg, indent+1)
         # end for
-        outfile.write('end do', 2)
+        outfile.write('end do', indent)
+
+    @property
+    def loop_is_integer(self):
+        """Return True iff the number of iterations is an integer constant"""
+        return self._loop_extent.isdigit()
 
     @property
     def loop(self):
         """Return the loop value or variable local_name"""
-        lvar = self.find_variable(standard_name=self.loop, any_scope=True)
+        if self.loop_is_integer:
+            return self._loop_extent
+        # end if
+        lvar = self._group.find_variable(standard_name=self._loop_extent,
+                                         any_scope=True, search_call_list=True)
         if lvar is None:
             emsg = "Subcycle, {}, specifies {} iterations but {} not found"
-            raise CCPPError(emsg.format(self.name, self.loop, self.loop))
+            raise CCPPError(emsg.format(self.name, self._loop_extent,
+                                        self._loop_extent))
         # end if
-        lname = lvar.get_prop_value('local_name')
-        return lname
+        return lvar.get_prop_value('local_name')
 
 ###############################################################################
 
-- 
2.43.0


From f284a70b506a54b01e95ceac1bc7c035e000b513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 13/80] fix: make the generated check for threaded regions
 compile and cover all threads

---
 scripts/suite_objects.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 3443e2d..3f69f39 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2198,7 +2198,7 @@ class Group(SuiteObject):
 '''
 
     __thread_check = CodeBlock([('#ifdef _OPENMP', -1),
-                                ('if (omp_get_thread_num() > 1) then', 1),
+                                ('if (omp_in_parallel()) then', 1),
                                 ('{errcode} = 1', 2),
                                 (('{errmsg} = "Cannot call {phase} routine '
                                   'from a threaded region"'), 2),
@@ -2206,6 +2206,10 @@ class Group(SuiteObject):
                                 ('end if', 1),
                                 ('#endif', -1)])
 
+    __thread_use = CodeBlock([('#ifdef _OPENMP', -1),
+                              ('use omp_lib, only: omp_in_parallel', 1),
+                              ('#endif', -1)])
+
     __process_types = [_API_TIMESPLIT_TAG, _API_PROCESSSPLIT_TAG]
 
     __process_xml = {}
@@ -2611,6 +2615,10 @@ class Group(SuiteObject):
                      [x[0] for x in subpart_optional_vars.values()])
         self._ddt_library.write_ddt_use_statements(decl_vars, outfile,
                                                    indent+1, pad=modmax)
+        # Look for the thread check
+        if not self.run_phase():
+            Group.__thread_use.write(outfile, indent, {})
+        # end if
         outfile.write('', 0)
         # Write out dummy arguments
         outfile.write('! Dummy arguments', indent+1)
-- 
2.43.0


From c3d0658649f3088f0b745d561c3e3a98aefcca5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 14/80] fix: support suite-level initialization and
 finalization schemes

---
 scripts/ccpp_suite.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index 096c005..cceb421 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -235,16 +235,17 @@ character(len=16) :: {css_var_name} = '{state}'
                 self.__groups.append(self.new_group(suite_item, RUN_PHASE_NAME,
                                                     run_env))
             else:
-                match_trans = CCPP_STATE_MACH.function_match(item_type)
+                match_trans = CCPP_STATE_MACH.transition_match(item_type)
                 if match_trans is None:
                     emsg = "Unknown CCPP suite component tag type, '{}'"
                     raise CCPPError(emsg.format(item_type))
                 # end if
                 if match_trans in self._full_phases:
                     # Parse a suite-wide initialization scheme
+                    pgroup = self._full_phases[match_trans]
                     scheme = Scheme(suite_item, self.__context,
-                                    self, run_env)
-                    self._full_phases[match_trans].add_item(scheme)
+                                    pgroup, run_env)
+                    pgroup.add_part(scheme)
                 else:
                     emsg = "Unhandled CCPP suite component tag type, '{}'"
                     raise ParseInternalError(emsg.format(match_trans))
@@ -441,7 +442,7 @@ character(len=16) :: {css_var_name} = '{state}'
                     header = scheme_entries[phase]
                     # Add this scheme's init or final routine
                     pgroup = self._full_phases[phase]
-                    if not pgroup.has_item(header.title):
+                    if not pgroup.has_item(module):
                         sstr = Suite.__scheme_template.format(module)
                         sxml = ET.fromstring(sstr)
                         scheme = Scheme(sxml, self.__context, pgroup, run_env)
-- 
2.43.0


From 133f70844dd9fbbc02dc77f436ea225c58b440fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:07 +0000
Subject: [PATCH 15/80] fix: iterating over a hash table with no entries

---
 src/ccpp_hash_table.F90 | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ccpp_hash_table.F90 b/src/ccpp_hash_table.F90
index 147ca5f..9bd45ed 100644
--- a/src/ccpp_hash_table.F90
+++ b/src/ccpp_hash_table.F90
@@ -402,11 +402,14 @@ CONTAINS
       this%index = 0
       nullify(this%table_entry)
       do
+         if (this%index >= hash_table%table_size) then
+            ! There are no entries in this table
+            this%index = 0
+            exit
+         end if
          this%index = this%index + 1
          if (associated(hash_table%table(this%index)%entry_value)) then
             exit
-         else if (this%index > hash_table%table_size) then
-            this%index = 0
          end if
       end do
    end subroutine hash_iterator_initialize
-- 
2.43.0


From 3c7ee9c401ed225a88aee75f5d4c80a63466a4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 16/80] fix: let the constituents object own its properties so
 that it can be reset and reused

---
 scripts/constituents.py           |  2 +-
 src/ccpp_constituent_prop_mod.F90 | 44 ++++++++++++++++++++++++-------
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/scripts/constituents.py b/scripts/constituents.py
index 37f9eb7..3e1ffaa 100644
--- a/scripts/constituents.py
+++ b/scripts/constituents.py
@@ -575,7 +575,7 @@ class ConstituentVarDict(VarDictionary):
             cap.write("end if", 3)
             stmt = f"call {const_obj_name}%new_field(const_prop, {obj_err_callstr})"
             cap.write(stmt, 3)
-            cap.write("nullify(const_prop)", 3)
+            cap.write("deallocate(const_prop)", 3)
             cap.write(f"if ({herrcode} /= 0) then", 3)
             cap.write("return", 4)
             cap.write("end if", 3)
diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 1601957..25376b0 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1192,7 +1192,7 @@ CONTAINS
       ! Local variables
       character(len=errmsg_len)                    :: error
       character(len=*), parameter                  :: subname = 'ccp_model_const_add_metadata'
-      type(ccpp_constituent_properties_t), pointer :: cprop => NULL()
+      type(ccpp_constituent_properties_t), pointer :: cprop
       character(len=stdname_len)                   :: standard_name
       logical                                      :: match
 
@@ -1217,8 +1217,14 @@ CONTAINS
                return
             end if
          end if
-         call this%hash_table%add_hash_key(field_data, error)
+         ! Store our own copy so that the table never refers to memory owned by
+         !   the caller (the constituent index belongs to this object)
+         allocate(cprop)
+         cprop = field_data
+         cprop%const_ind = int_unassigned
+         call this%hash_table%add_hash_key(cprop, error)
          if (len_trim(error) > 0) then
+            deallocate(cprop)
             call append_errvars(1, trim(error), subname, errcode=errcode, errmsg=errmsg)
          else
             ! If we get here we are successful, add to variable count
@@ -1545,8 +1551,12 @@ CONTAINS
       class(ccpp_model_constituents_t), intent(inout) :: this
       logical, optional,                intent(in)    :: clear_hash_table
       ! Local variables
-      logical :: clear_table
-      integer :: index
+      logical                                        :: clear_table
+      integer                                        :: index
+      integer                                        :: num_vars
+      type(ccpp_hash_iterator_t)                     :: hiter
+      class(ccpp_hashable_t),            pointer     :: hval
+      type(ccpp_constituent_prop_ptr_t), allocatable :: const_props(:)
 
       if (present(clear_hash_table)) then
          clear_table = clear_hash_table
@@ -1563,18 +1573,34 @@ CONTAINS
          deallocate(this%vars_layer_tend)
       end if
       if (allocated(this%const_metadata)) then
-         if (clear_table) then
-            do index = 1, size(this%const_metadata, 1)
-               call this%const_metadata(index)%deallocate()
-            end do
-         end if
          deallocate(this%const_metadata)
       end if
       if (clear_table) then
          this%num_layer_vars = 0
          this%num_advected_vars = 0
          this%num_layers = 0
+         this%table_locked = .false.
+         this%data_locked = .false.
+         ! Deallocate the properties owned by the hash table
+         allocate(const_props(this%hash_table%num_values()))
+         num_vars = 0
+         call hiter%initialize(this%hash_table)
+         do
+            if (.not. hiter%valid()) then
+               exit
+            end if
+            hval => hiter%value()
+            select type(hval)
+            type is (ccpp_constituent_properties_t)
+               num_vars = num_vars + 1
+               const_props(num_vars)%prop => hval
+            end select
+            call hiter%next()
+         end do
          call this%hash_table%clear()
+         do index = 1, num_vars
+            call const_props(index)%deallocate()
+         end do
       end if
 
    end subroutine ccp_model_const_reset
-- 
2.43.0


From d147846fdecb9a5fa4646d4a3b406b03cbddc30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 17/80] fix: deallocating constituent properties clears all of
 them

---
 src/ccpp_constituent_prop_mod.F90 | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 25376b0..065b642 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -479,13 +479,20 @@ CONTAINS
       if (allocated(this%var_long_name)) then
          deallocate(this%var_long_name)
       end if
+      if (allocated(this%var_units)) then
+         deallocate(this%var_units)
+      end if
       if (allocated(this%vert_dim)) then
          deallocate(this%vert_dim)
       end if
       this%const_ind = int_unassigned
       this%advected = .false.
+      this%thermo_active = .false.
+      this%water_species = .false.
       this%const_type = int_unassigned
       this%const_water = int_unassigned
+      this%min_val = 0.0_kind_phys
+      this%molar_mass_val = kphys_unassigned
       this%const_default_value = kphys_unassigned
 
    end subroutine ccp_deallocate
-- 
2.43.0


From a11c8fa65f807b8bd3c01e50a79fb4eb80b2bf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 18/80] fix: initialize a constituents table when no
 constituents are declared

---
 src/ccpp_constituent_prop_mod.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index 065b642..c290fe8 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1271,7 +1271,7 @@ CONTAINS
       ! Clear any data
       call this%reset()
       ! Figure a log base 2 for initializing hash table
-      tbl_size = num_elements * 10 ! Hash padding
+      tbl_size = MAX(num_elements, 1) * 10 ! Hash padding
       tbl_size = int((log(real(tbl_size, kind_phys)) / log(2.0_kind_phys)) +  &
            1.0_kind_phys)
       ! Initialize hash table
-- 
2.43.0


From 33a2e934630e28ef1629ef4ef5ec396121dab16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:05 +0000
Subject: [PATCH 19/80] fix: report constituent errors through defined and
 optional error variables

---
 src/ccpp_constituent_prop_mod.F90 | 60 ++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/src/ccpp_constituent_prop_mod.F90 b/src/ccpp_constituent_prop_mod.F90
index c290fe8..33dea64 100644
--- a/src/ccpp_constituent_prop_mod.F90
+++ b/src/ccpp_constituent_prop_mod.F90
@@ -1168,6 +1168,7 @@ CONTAINS
       ! Local variable
       character(len=*), parameter :: subname = 'ccp_model_const_okay_to_add'
 
+      call initialize_errvars(errcode, errmsg)
       ccp_model_const_okay_to_add = this%hash_table%is_initialized()
       if (ccp_model_const_okay_to_add) then
          ccp_model_const_okay_to_add = .not. (this%const_props_locked(errcode=errcode,     &
@@ -1202,12 +1203,16 @@ CONTAINS
       type(ccpp_constituent_properties_t), pointer :: cprop
       character(len=stdname_len)                   :: standard_name
       logical                                      :: match
+      integer                                      :: errcode_local
 
       if (this%okay_to_add(errcode=errcode, errmsg=errmsg,                    &
            warn_func=subname)) then
          error = ''
          ! Check to see if standard name is already in the table
          call field_data%standard_name(standard_name, errcode, errmsg)
+         if (.not. field_data%is_instantiated()) then
+            return
+         end if
          cprop => this%find_const(standard_name)
          if (associated(cprop)) then
             ! Standard name already in table, let's see if the existing constituent is the same
@@ -1238,15 +1243,13 @@ CONTAINS
             if (field_data%is_layer_var()) then
                this%num_layer_vars = this%num_layer_vars + 1
             else
-               if (present(errmsg)) then
-                  call field_data%vertical_dimension(error,                   &
+               call field_data%vertical_dimension(error,                      &
+                    errcode=errcode_local, errmsg=errmsg)
+               if (errcode_local /= 0) then
+                  call append_errvars(1,                                      &
+                       "ERROR: Unknown vertical dimension, '" //              &
+                       trim(error) // "'", subname,                           &
                        errcode=errcode, errmsg=errmsg)
-                  if (errcode /= 0) then
-                     call append_errvars(1,                                   &
-                          "ERROR: Unknown vertical dimension, '" //           &
-                          trim(error) // "'", subname,                        &
-                          errcode=errcode, errmsg=errmsg)
-                  end if
                end if
             end if
          end if
@@ -1300,6 +1303,7 @@ CONTAINS
       character(len=errmsg_len)       :: error
       character(len=*), parameter     :: subname = 'ccp_model_const_find_const'
 
+      call initialize_errvars(errcode, errmsg)
       nullify(cprop)
 
       hval => this%hash_table%table_value(standard_name, errmsg=error)
@@ -1487,6 +1491,7 @@ CONTAINS
       integer                                         :: astat, index, errcode_local
       real(kind=kind_phys)                            :: default_value
       real(kind=kind_phys)                            :: minvalue
+      character(len=errmsg_len)                       :: error
       character(len=*), parameter :: subname = 'ccp_model_const_data_lock'
 
       errcode_local = 0
@@ -1527,12 +1532,12 @@ CONTAINS
             do index = 1, this%hash_table%num_values()
                !Set all constituents to their default values:
                call this%const_metadata(index)%default_value(default_value, &
-                               errcode, errmsg)
+                               astat, error)
                this%vars_layer(:,:,index) = default_value
 
                ! Also set the minimum allowed value array
-               call this%const_metadata(index)%minimum(minvalue, errcode,   &
-                               errmsg)
+               call this%const_metadata(index)%minimum(minvalue, astat,     &
+                               error)
                this%vars_minvalue(index) = minvalue
             end do
          end if
@@ -1991,6 +1996,7 @@ CONTAINS
          call this%prop%standard_name(std_name, errcode, errmsg)
       else
          std_name = ''
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2014,6 +2020,7 @@ CONTAINS
          call this%prop%long_name(long_name, errcode, errmsg)
       else
          long_name = ''
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2037,6 +2044,7 @@ CONTAINS
          call this%prop%units(units, errcode, errmsg)
       else
          units = ''
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2062,6 +2070,7 @@ CONTAINS
          end if
       else
          vert_dim = ''
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2145,6 +2154,7 @@ CONTAINS
          index = this%prop%const_index(errcode, errmsg)
       else
          index = int_unassigned
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2167,6 +2177,7 @@ CONTAINS
          call this%prop%is_thermo_active(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2189,6 +2200,7 @@ CONTAINS
          call this%prop%is_water_species(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2211,6 +2223,7 @@ CONTAINS
          call this%prop%is_advected(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2233,6 +2246,7 @@ CONTAINS
          call this%prop%is_mass_mixing_ratio(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2255,6 +2269,7 @@ CONTAINS
          call this%prop%is_volume_mixing_ratio(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2277,6 +2292,7 @@ CONTAINS
          call this%prop%is_number_concentration(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2299,6 +2315,7 @@ CONTAINS
          call this%prop%is_dry(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2321,6 +2338,7 @@ CONTAINS
          call this%prop%is_moist(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2343,6 +2361,7 @@ CONTAINS
          call this%prop%is_wet(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2365,6 +2384,7 @@ CONTAINS
          call this%prop%minimum(val_out, errcode, errmsg)
       else
          val_out = kphys_unassigned
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2390,6 +2410,7 @@ CONTAINS
       if (associated(this%prop)) then
          call this%prop%set_minimum(min_value, errcode, errmsg)
       else
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2412,6 +2433,7 @@ CONTAINS
          call this%prop%molar_mass(val_out, errcode, errmsg)
       else
          val_out = kphys_unassigned
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2433,6 +2455,7 @@ CONTAINS
       if (associated(this%prop)) then
          call this%prop%set_molar_mass(molar_mass, errcode, errmsg)
       else
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2455,6 +2478,7 @@ CONTAINS
          call this%prop%default_value(val_out, errcode, errmsg)
       else
          val_out = kphys_unassigned
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2477,6 +2501,7 @@ CONTAINS
          call this%prop%has_default(val_out, errcode, errmsg)
       else
          val_out = .false.
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",      &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2497,16 +2522,16 @@ CONTAINS
       ! Local variables
       character(len=stdname_len) :: stdname
       character(len=errmsg_len)  :: errmsg2
+      integer                    :: errcode_local
       character(len=*), parameter :: subname = 'ccpt_set'
 
       call initialize_errvars(errcode, errmsg)
       if (associated(this%prop)) then
-         call this%standard_name(stdname, errcode=errcode, errmsg=errmsg2)
-         if (errcode == 0) then
-            write(errmsg2, *) "Pointer already allocated as '",               &
-                 trim(stdname), "'"
+         call this%standard_name(stdname, errcode=errcode_local,              &
+              errmsg=errmsg2)
+         if (errcode_local == 0) then
+            errmsg2 = "Pointer already allocated as '"//trim(stdname)//"'"
          end if
-         errcode = errcode + 1
          call append_errvars(1, trim(errmsg2), subname, errcode=errcode,      &
               errmsg=errmsg)
       else
@@ -2556,6 +2581,7 @@ CONTAINS
             end if
          end if
       else
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",         &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2582,6 +2608,7 @@ CONTAINS
             this%prop%thermo_active = thermo_flag
          end if
       else
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",         &
               subname, errcode=errcode, errmsg=errmsg)
       end if
@@ -2608,6 +2635,7 @@ CONTAINS
             this%prop%water_species = water_flag
          end if
       else
+         call initialize_errvars(errcode, errmsg)
          call append_errvars(1, ": invalid constituent pointer",        &
               subname, errcode=errcode, errmsg=errmsg)
       end if
-- 
2.43.0


From 004f8bd6f0c926aded11e6d1ac99804593cdd67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 20/80] fix: generate dimension arguments and dependencies in a
 reproducible order

---
 scripts/ccpp_datafile.py |  2 +-
 scripts/metavar.py       | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/scripts/ccpp_datafile.py b/scripts/ccpp_datafile.py
index 6bb5e53..8f4bf4c 100755
--- a/scripts/ccpp_datafile.py
+++ b/scripts/ccpp_datafile.py
@@ -1178,7 +1178,7 @@ def generate_ccpp_datatable(run_env, host_model, api, scheme_headers,
             host_depends.add(dep_file)
         # end for
     # end for
-    _add_dependencies(datatable, scheme_depends, host_depends)
+    _add_dependencies(datatable, sorted(scheme_depends), sorted(host_depends))
     # Write tree
     datatable_tree = PrettyElementTree(datatable)
     datatable_tree.write(run_env.datatable_file)
diff --git a/scripts/metavar.py b/scripts/metavar.py
index ef49c68..93bbffe 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -941,8 +941,9 @@ class Var:
         return dims
 
     def get_dim_stdnames(self, include_constants=True):
-        """Return a set of all the dimension standard names for this Var"""
-        dimset = set()
+        """Return a list of all the dimension standard names for this Var.
+        Each name is listed once, in order of first use."""
+        dimlist = []
         for dim in self.get_dimensions():
             for name in dim.split(':'):
                 # Weed out the integers
@@ -950,13 +951,15 @@ class Var:
                     _ = int(name)
                 except ValueError:
                     # Not an integer, maybe add it
-                    if include_constants or (not name in CCPP_CONSTANT_VARS):
-                        dimset.add(name)
+                    if ((include_constants or
+                         (not name in CCPP_CONSTANT_VARS)) and
+                        (name not in dimlist)):
+                        dimlist.append(name)
                     # end if
                 # end try
             # end for
         # end for
-        return dimset
+        return dimlist
 
     def get_rank(self):
         """Return the variable's rank (zero for scalar)"""
-- 
2.43.0


From 7f13a3d7b678c1363beb88f0d7db742cf76d8b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 21/80] fix: find protected DDT components in datatable
 variable reports

---
 scripts/ccpp_datafile.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/scripts/ccpp_datafile.py b/scripts/ccpp_datafile.py
index 8f4bf4c..1edf159 100755
--- a/scripts/ccpp_datafile.py
+++ b/scripts/ccpp_datafile.py
@@ -994,9 +994,12 @@ def _new_scheme_entry(parent, scheme, group_name, scheme_headers):
     # end if
 
 ###############################################################################
-def _new_variable_dictionary(dictionaries, var_dict, dict_type, parent=None):
+def _new_variable_dictionary(dictionaries, var_dict, dict_type, parent=None,
+                             host_model=None):
 ###############################################################################
-    """Create a new XML entry for <var_dict> under <dictionaries>."""
+    """Create a new XML entry for <var_dict> under <dictionaries>.
+    If <host_model> is not None, also mark a variable as protected if its
+    host model variable (e.g., a DDT component) is protected."""
     dict_entry = ET.SubElement(dictionaries, "var_dictionary")
     dict_entry.set("name", var_dict.name)
     dict_entry.set("type", dict_type)
@@ -1011,24 +1014,33 @@ def _new_variable_dictionary(dictionaries, var_dict, dict_type, parent=None):
     vars_entry = ET.SubElement(dict_entry, "variables")
     for var in var_dict.variable_list():
         _new_var_entry(vars_entry, var, full_entry=True)
+        if host_model is not None:
+            stdname = var.get_prop_value("standard_name")
+            host_var = host_model.find_variable(standard_name=stdname)
+            if (host_var is not None) and host_var.get_prop_value("protected"):
+                vars_entry[-1].set("protected", "True")
+            # end if
+        # end if
     # end for
 
 ###############################################################################
-def _add_suite_object_dictionaries(dictionaries, suite_object):
+def _add_suite_object_dictionaries(dictionaries, suite_object, host_model):
 ###############################################################################
     """Create new XML entries for <suite_object> under <dictionaries>.
     Add <suite_object>'s dictionary and its call_list dictionary (if present).
-    Recurse to this objects parts."""
+    Recurse to this objects parts.
+    <host_model> is used to find protected call list variables."""
     dict_type = _object_type(suite_object)
     _new_variable_dictionary(dictionaries, suite_object, dict_type,
                              parent=suite_object.parent)
     if suite_object.call_list:
         dict_type += "_call_list"
         _new_variable_dictionary(dictionaries, suite_object.call_list,
-                                 dict_type, parent=suite_object.parent)
+                                 dict_type, parent=suite_object.parent,
+                                 host_model=host_model)
     # end if
     for part in suite_object.parts:
-        _add_suite_object_dictionaries(dictionaries, part)
+        _add_suite_object_dictionaries(dictionaries, part, host_model)
     # end for
 
 ###############################################################################
@@ -1160,7 +1172,7 @@ def generate_ccpp_datatable(run_env, host_model, api, scheme_headers,
     for suite in api.suites:
         _new_variable_dictionary(var_dicts, suite, "suite", parent=suite.parent)
         for group in suite.groups:
-            _add_suite_object_dictionaries(var_dicts, group)
+            _add_suite_object_dictionaries(var_dicts, group, host_model)
             # end for
         # end for
     # end for
-- 
2.43.0


From 5c208d5d5c3b2f270cac02a4d00d4f66d3c834c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:11 +0000
Subject: [PATCH 22/80] fix: make capgen --clean remove the generated files

---
 scripts/ccpp_capgen.py | 52 +++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 33 deletions(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index 9eac0ec..2fd35c0 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -17,6 +17,7 @@ import re
 # CCPP framework imports
 from ccpp_database_obj import CCPPDatabaseObj
 from ccpp_datafile import generate_ccpp_datatable
+from ccpp_datafile import datatable_report, DatatableReport
 from ccpp_suite import API
 from file_utils import check_for_writeable_file, remove_dir, replace_paths
 from file_utils import create_file_list, move_modified_files
@@ -52,40 +53,25 @@ _CCPP_FRAMEWORK_DDT_TYPES = ["ccpp_hash_table_t",
                              "ccpp_hashable_char_t"]
 
 ###############################################################################
-def delete_pathnames_from_file(capfile, logger):
+def delete_generated_files(datatable, logger):
 ###############################################################################
-    """Remove all the filenames found in <capfile>, then delete <capfile>"""
-    root_path = os.path.dirname(os.path.abspath(capfile))
+    """Remove all the generated files listed in <datatable>, then delete
+    <datatable>.
+    The framework source files which are also listed there are not removed."""
     success = True
-    with open(capfile, 'r') as infile:
-        for line in infile.readlines():
-            path = line.strip()
-            # Skip blank lines and lines which appear to start with a comment.
-            if path and (path[0] != '#') and (path[0] != '!'):
-                # Check for an absolute path
-                if not os.path.isabs(path):
-                    # Assume relative pathnames are relative to pathsfile
-                    path = os.path.normpath(os.path.join(root_path, path))
-                # end if
-                logger.info("Clean: Removing {}".format(path))
-                try:
-                    os.remove(path)
-                except OSError as oserr:
-                    success = False
-                    errmsg = 'Unable to remove {}\n{}'
-                    logger.warning(errmsg.format(path, oserr))
-                # end try
-            # end if (else skip blank or comment line)
-        # end for
-    # end with open
-    logger.info("Clean: Removing {}".format(capfile))
-    try:
-        os.remove(capfile)
-    except OSError as oserr:
-        success = False
-        errmsg = 'Unable to remove {}\n{}'
-        logger.warning(errmsg.format(capfile, oserr))
-    # end try
+    pathnames = datatable_report(datatable, DatatableReport("ccpp_files"), '\n')
+    for path in pathnames.split('\n') + [datatable]:
+        if path and (os.path.dirname(os.path.abspath(path)) != _SRC_ROOT):
+            logger.info("Clean: Removing {}".format(path))
+            try:
+                os.remove(path)
+            except OSError as oserr:
+                success = False
+                errmsg = 'Unable to remove {}\n{}'
+                logger.warning(errmsg.format(path, oserr))
+            # end try
+        # end if (else skip framework source file)
+    # end for
     if success:
         logger.info("ccpp_capgen clean successful, exiting")
     else:
@@ -586,7 +572,7 @@ def clean_capgen(cap_output_file, logger):
     set_log_level(logger, logging.INFO)
     if os.path.exists(cap_output_file):
         logger.info("Cleaning capgen files from {}".format(cap_output_file))
-        delete_pathnames_from_file(cap_output_file, logger)
+        delete_generated_files(cap_output_file, logger)
     else:
         emsg = "Unable to run clean, {} not found"
         logger.error(emsg.format(cap_output_file))
-- 
2.43.0


From ac6d4a9ec776ff1d3debfd8f31ee08bc2b549871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 23/80] fix: reject scheme variables which are incompatible
 with their source

---
 scripts/suite_objects.py | 41 ++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 3f69f39..588a263 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -833,6 +833,19 @@ class SuiteObject(VarDictionary):
         # end if
         return found_var
 
+    @staticmethod
+    def check_permutation(var, perm):
+        """Raise an error if the dimensions of <var> are a permutation, <perm>,
+        of the dimensions of its source"""
+        if perm is not None:
+            errmsg = "Permuted indices are not yet supported"
+            lname = var.get_prop_value('local_name')
+            dstr = ', '.join(var.get_dimensions())
+            ctx = context_string(var.context)
+            errmsg += ", var = {}({}){}".format(lname, dstr, ctx)
+            raise CCPPError(errmsg)
+        # end if
+
     def match_variable(self, var, run_env):
         """Try to find a source for <var> in this SuiteObject's dictionary
         tree. Several items are returned:
@@ -883,20 +896,17 @@ class SuiteObject(VarDictionary):
             # Therefore, we have to use the declaration dimensions in the call.
             found_var = True
             new_vdims = dict_var.get_dimensions()
+            if vdims:
+                perm = self.parent.match_dimensions(vdims, new_vdims)[4]
+                self.check_permutation(var, perm)
+            # end if
         else:
             # Check dimensions
             dict_dims = dict_var.get_dimensions()
             if vdims:
                 args = self.parent.match_dimensions(vdims, dict_dims)
                 match, new_vdims, new_dict_dims, missing_vert, perm, err = args
-                if perm is not None:
-                    errmsg = "Permuted indices are not yet supported"
-                    lname = var.get_prop_value('local_name')
-                    dstr = ', '.join(vdims)
-                    ctx = context_string(var.context)
-                    errmsg += ", var = {}({}){}".format(lname, dstr, ctx)
-                    raise CCPPError(errmsg)
-                # end if
+                self.check_permutation(var, perm)
             else:
                 new_vdims = list()
                 new_dict_dims = dict_dims
@@ -950,6 +960,21 @@ class SuiteObject(VarDictionary):
         if dict_var is not None:
             dict_var = self.parent.find_variable(source_var=var, any_scope=True)
             compat_obj = var.compatible(dict_var, run_env)
+            # A missing vertical dimension is handled with a vertical loop
+            dict_dims = dict_var.get_dimensions()
+            vloop = ((compat_obj.incompat_reason == 'dimensions') and
+                     (0 < len(vdims) == len(dict_dims) - 1) and
+                     (find_vertical_dimension(vdims)[1] < 0) and
+                     (find_vertical_dimension(dict_dims)[1] >= 0))
+            if (not compat_obj.compat) and (not vloop):
+                emsg = "Incompatible definitions of {}, '{}'{} and '{}'{}: {}"
+                raise CCPPError(emsg.format(vstdname,
+                                            var.get_prop_value('local_name'),
+                                            context_string(var.context),
+                                            dict_var.get_prop_value('local_name'),
+                                            context_string(dict_var.context),
+                                            compat_obj.incompat_reason))
+            # end if
         # end if
         return found_var, dict_var, var_vdim, new_vdims, missing_vert, compat_obj
 
-- 
2.43.0


From cb06f8f29bcc0e30391453cc19c8569bfb878d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 24/80] fix: report an empty scheme name in a suite definition
 file

---
 scripts/suite_objects.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 588a263..5175fe6 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -1153,6 +1153,10 @@ class Scheme(SuiteObject):
     def __init__(self, scheme_xml, context, parent, run_env):
         """Initialize this physics Scheme"""
         name = scheme_xml.text
+        if (name is None) or (not name.strip()):
+            emsg = "Missing scheme name in '{}'{}"
+            raise CCPPError(emsg.format(parent.name, context_string(context)))
+        # end if
         self.__subroutine_name = None
         self.__context = context
         self.__version = scheme_xml.get('version', None)
-- 
2.43.0


From fbd3415b6806675a5bcbeb8be491adb4e21169a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 25/80] fix: reject schemes which modify protected variables

---
 scripts/ddt_library.py   | 3 +++
 scripts/suite_objects.py | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/scripts/ddt_library.py b/scripts/ddt_library.py
index d829cfa..52d0902 100644
--- a/scripts/ddt_library.py
+++ b/scripts/ddt_library.py
@@ -61,9 +61,12 @@ class VarDDT(Var):
 
     def get_prop_value(self, name):
         """Return the Var property value for the leaf Var object.
+        However, the elements of a protected DDT object are protected.
         """
         if self.field is None:
             pvalue = super().get_prop_value(name)
+        elif (name == 'protected') and super().get_prop_value(name):
+            pvalue = True
         else:
             pvalue = self.field.get_prop_value(name)
         # end if
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 5175fe6..5612267 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -975,6 +975,14 @@ class SuiteObject(VarDictionary):
                                             context_string(dict_var.context),
                                             compat_obj.incompat_reason))
             # end if
+            if (dict_var.get_prop_value('protected') and
+                (var.get_prop_value('intent') != 'in')):
+                emsg = "Attempt to modify protected variable {}{} with {}{}"
+                raise CCPPError(emsg.format(vstdname,
+                                            context_string(dict_var.context),
+                                            var.get_prop_value('local_name'),
+                                            context_string(var.context)))
+            # end if
         # end if
         return found_var, dict_var, var_vdim, new_vdims, missing_vert, compat_obj
 
-- 
2.43.0


From 0732a76b8d4d479e6dfdf69fae968bd6f79c75be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 26/80] fix: detect differences between character lengths

---
 scripts/var_props.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/var_props.py b/scripts/var_props.py
index fcbed74..7a3101d 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -1345,7 +1345,7 @@ class VarCompatObj:
             kentries = [x.strip() for x in kind_str.split(',') if x.strip()]
             if len(kentries) == 1:
                 if kentries[0][0:4].lower() == 'len=':
-                    kind_ok = True
+                    kind_ok = 'len=' + kentries[0][4:].strip().lower()
                 # end if (no else, kind_ok already False)
             # end if (no else, kind_ok already False)
         # end if (no else, kind_ok already False)
-- 
2.43.0


From 952a82220ddaf389647eabcd69655aee29ffbb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 27/80] fix: reject duplicate group and suite names

---
 scripts/ccpp_suite.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/scripts/ccpp_suite.py b/scripts/ccpp_suite.py
index cceb421..fbf4986 100644
--- a/scripts/ccpp_suite.py
+++ b/scripts/ccpp_suite.py
@@ -232,8 +232,16 @@ character(len=16) :: {css_var_name} = '{state}'
             # Suite item is a group or a suite-wide init or final method
             if item_type == 'group':
                 # Parse a group
-                self.__groups.append(self.new_group(suite_item, RUN_PHASE_NAME,
-                                                    run_env))
+                group = self.new_group(suite_item, RUN_PHASE_NAME, run_env)
+                # The name of a group is the name of a Fortran subroutine
+                gnames = [x.name.lower() for x in self.__groups]
+                gnames.extend([x.lower() for x in self.__full_groups])
+                if group.name.lower() in gnames:
+                    emsg = "Duplicate group, '{}', in suite '{}'"
+                    raise CCPPError(emsg.format(suite_item.get('name'),
+                                                self.name))
+                # end if
+                self.__groups.append(group)
             else:
                 match_trans = CCPP_STATE_MACH.transition_match(item_type)
                 if match_trans is None:
@@ -694,6 +702,11 @@ class API(VarDictionary):
         # Turn the SDF files into Suites
         for sdf in sdfs:
             suite = Suite(sdf, self, run_env)
+            # The name of a suite is part of the names of Fortran modules
+            if suite.name.lower() in [x.name.lower() for x in self.__suites]:
+                emsg = "Duplicate suite, '{}', found in {}"
+                raise CCPPError(emsg.format(suite.name, sdf))
+            # end if
             suite.analyze(self.host_model, scheme_library,
                           self.__ddt_lib, run_env)
             self.__suites.append(suite)
-- 
2.43.0


From 62a7c7121fdde953c9c9f4ab26a6e1466d161797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 28/80] fix: report input files which do not exist

---
 scripts/file_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/file_utils.py b/scripts/file_utils.py
index cce8fb0..1104af2 100644
--- a/scripts/file_utils.py
+++ b/scripts/file_utils.py
@@ -59,7 +59,11 @@ def add_unique_files(filepath, pdesc, master_list, logger):
     Return a list of errors found
     Wildcards in <filepath> are expanded"""
     errors = list()
-    for file in glob.glob(filepath):
+    files = glob.glob(filepath)
+    if (not files) and (not glob.has_magic(filepath)):
+        errors.extend(check_for_existing_file(filepath, pdesc))
+    # end if
+    for file in files:
         errs = check_for_existing_file(file, pdesc)
         if errs:
             errors.extend(errs)
-- 
2.43.0


From 1d2348a17fea2d5d6f8e2721d8042fd2851a4712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 29/80] fix: process input files in a reproducible order

---
 scripts/file_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/file_utils.py b/scripts/file_utils.py
index 1104af2..53b6edb 100644
--- a/scripts/file_utils.py
+++ b/scripts/file_utils.py
@@ -59,7 +59,7 @@ def add_unique_files(filepath, pdesc, master_list, logger):
     Return a list of errors found
     Wildcards in <filepath> are expanded"""
     errors = list()
-    files = glob.glob(filepath)
+    files = sorted(glob.glob(filepath))
     if (not files) and (not glob.has_magic(filepath)):
         errors.extend(check_for_existing_file(filepath, pdesc))
     # end if
@@ -153,7 +153,7 @@ def _create_file_list_int(files, suffices, file_type, logger,
             errs = add_unique_files(filename, pdesc, master_list, logger)
             errors.extend(errs)
         elif suff == 'txt':
-            tfiles = glob.glob(filename)
+            tfiles = sorted(glob.glob(filename))
             if tfiles:
                 for file in tfiles:
                     if file in txt_files:
-- 
2.43.0


From 49928fa7581cb924902fcda62a03c9abe980bb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:38 +0000
Subject: [PATCH 30/80] fix: report dimensions which are not variables of their
 table

---
 scripts/metadata_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index 942f8d8..47d99b6 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -1110,7 +1110,7 @@ class MetadataSection(ParseSource):
                         errmsg += context_string(context)
                         if logger is not None:
                             errmsg = "ERROR: " + errmsg
-                            logger.error(errmsg.format(item, std, ctx))
+                            logger.error(errmsg)
                             dname = unique_standard_name()
                         else:
                             raise CCPPError(errmsg) from verr
-- 
2.43.0


From f3b9d14e35b7b6b665919bf0d465c9847b5607b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:38 +0000
Subject: [PATCH 31/80] fix: read all forms of character declarations

---
 scripts/fortran_tools/parse_fortran.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran.py b/scripts/fortran_tools/parse_fortran.py
index e7d3c49..e63e208 100644
--- a/scripts/fortran_tools/parse_fortran.py
+++ b/scripts/fortran_tools/parse_fortran.py
@@ -335,10 +335,10 @@ class FtypeCharacter(Ftype):
     "character(len=15, kind=kind('b'))"
     """
 
-    char_re = re.compile(r"(?i)(character)\s*(\([A-Za-z0-9,=*:\s\'\"()]+\))?")
-    chartrail_re = re.compile(r"\s*[,:]|\s+[A-Z]")
-    oldchar_re = re.compile(r"(?i)(character)\s*(\*)\s*([0-9]+\s*)")
-    oldchartrail_re = re.compile(r"\s*[,]|\s+[A-Z]")
+    char_re = re.compile(r"(?i)(character)(?:\s*(\([A-Za-z0-9,=*:\s\'\"()]+\)))?")
+    chartrail_re = re.compile(r"(?i)\s*[,:]|\s+[A-Z]")
+    oldchar_re = re.compile(r"(?i)(character)\s*(\*)\s*([0-9]+|\(\s*(?:[:*]|\w+)\s*\))")
+    oldchartrail_re = re.compile(r"(?i)\s*[,:]|\s*[A-Z]")
     len_token_re = re.compile(r"(?i)([:]|[*]|[0-9]+|[A-Z][A-Z0-9_]*)$")
 
     @classmethod
@@ -367,11 +367,12 @@ class FtypeCharacter(Ftype):
             if match.group(2) != '*':
                 raise ParseSyntaxError("character declaration", token=line, context=context)
             # end if
-            if FtypeCharacter.oldchartrail_re.match(line.strip()[len(match.group(0)):]) is None:
+            if ((match.group(3)[-1] != ')') and
+                (FtypeCharacter.oldchartrail_re.match(line.strip()[len(match.group(0)):]) is None)):
                 raise ParseSyntaxError("character declaration",
                                        token=line, context=context)
             # end if
-            clen = match.group(3)
+            clen = self.parse_len_token(match.group(3).strip('()').strip(), context)
         elif match.group(2) is not None:
             # Parse attributes (strip off parentheses)
             attrs = [x.strip() for x in match.group(2)[1:-1].split(',')]
@@ -581,7 +582,7 @@ def ftype_factory(line, context):
     if ppos >= 0:
         if 0 <= cpos < ppos:
             # Whatever parentheses there are, they are not part of type
-            line = line[0:cpos]
+            line = line[0:cpos+1]
         else:
             # Find matching right parenthesis
             depth = 1
@@ -598,7 +599,7 @@ def ftype_factory(line, context):
             line = line[0:pepos+1]
         # end if
     elif cpos >= 0:
-        line = line[0:cpos]
+        line = line[0:cpos+1]
     # end if
     tmatch = Ftype.type_match(line)
     if tmatch is None:
-- 
2.43.0


From 02f4821548e636303286d1d39a873403dd2d3148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:39 +0000
Subject: [PATCH 32/80] fix: read declarations with comment or separator
 characters in strings

---
 scripts/fortran_tools/parse_fortran.py      | 75 +++++++++++++++------
 scripts/fortran_tools/parse_fortran_file.py |  4 +-
 2 files changed, 57 insertions(+), 22 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran.py b/scripts/fortran_tools/parse_fortran.py
index e63e208..e8841d4 100644
--- a/scripts/fortran_tools/parse_fortran.py
+++ b/scripts/fortran_tools/parse_fortran.py
@@ -39,6 +39,30 @@ _VAR_ID_RE = re.compile(r"("+_FORTRAN_ID+r")\s*(\(\s*"+_dims_list_+r"\s*\))?$")
 
 ########################################################################
 
+def strip_fortran_comment(line):
+    """Return <line> without any trailing comment.
+    An exclamation mark in a character context does not start a comment.
+    >>> strip_fortran_comment("integer :: foo ! Isn't this a comment")
+    'integer :: foo'
+    >>> strip_fortran_comment("character(len=8) :: foo = 'Not! so' ! comment")
+    "character(len=8) :: foo = 'Not! so'"
+    """
+    inchar = None # Character context
+    for index, char in enumerate(line):
+        if inchar is not None:
+            if char == inchar:
+                inchar = None
+            # end if
+        elif char in ("'", '"'):
+            inchar = char
+        elif char == '!':
+            return line[0:index].rstrip()
+        # end if
+    # end for
+    return line
+
+########################################################################
+
 class Ftype(object):
     """Ftype is the base class for all Fortran types
     It is also the final type for intrinsic types except for character
@@ -219,22 +243,35 @@ class Ftype(object):
         ['a(b, c)', 'd', 'e()']
         >>> Ftype.reassemble_parens("dimension(size(Grid%xlon,1),NSPC1),  intent(in)", 'spec', ParseContext())
         ['dimension(size(Grid%xlon,1),NSPC1)', 'intent(in)']
+        >>> Ftype.reassemble_parens("a = [1, 2], b = 'c,d)', e", 'spec', ParseContext())
+        ['a = [1, 2]', "b = 'c,d)'", 'e']
         """
         var_list = list()
-        proplist = propstr.split(splitstr)
-        while len(proplist) > 0:
-            var = proplist.pop(0)
-            while var.count('(') != var.count(')'):
-                if len(proplist) == 0:
-                    raise ParseSyntaxError(errstr, token=propstr, context=context)
+        inchar = None # Character context
+        depth = 0     # Depth of parentheses and brackets
+        start = 0
+        for index, char in enumerate(propstr + splitstr):
+            if inchar is not None:
+                if char == inchar:
+                    inchar = None
                 # end if
-                var = var + ',' + proplist.pop(0)
-            # end while
-            var = var.strip()
-            if len(var) > 0:
-                var_list.append(var)
+            elif (depth == 0) and (char == splitstr):
+                var = propstr[start:index].strip()
+                if var:
+                    var_list.append(var)
+                # end if
+                start = index + 1
+            elif char in ("'", '"'):
+                inchar = char
+            elif char in '([':
+                depth += 1
+            elif char in ')]':
+                depth -= 1
             # end if
-        # end while
+        # end for
+        if (depth != 0) or (inchar is not None):
+            raise ParseSyntaxError(errstr, token=propstr, context=context)
+        # end if
         return var_list
 
     @classmethod
@@ -574,9 +611,7 @@ def ftype_factory(line, context):
     "Return an appropriate type object if there is a match, otherwise None"
     # We have to cut off the line at the end of any possible type info
     # Strip comments first (might have an = character)
-    if '!' in line:
-        line = line[0:line.index('!')].rstrip()
-    # end if
+    line = strip_fortran_comment(line)
     ppos = line.find('(')
     cpos = line.find(',')
     if ppos >= 0:
@@ -709,11 +744,8 @@ def parse_fortran_var_decl(line, source, run_env):
     #'(size(bar))'
     """
     context = source.context
-    sline = line.strip()
     # Strip comments first
-    if '!' in sline:
-        sline = sline[0:sline.index('!')].rstrip()
-    # end if
+    sline = strip_fortran_comment(line.strip())
     tobject = ftype_factory(sline, context)
     newvars = list()
     if tobject is not None:
@@ -722,7 +754,7 @@ def parse_fortran_var_decl(line, source, run_env):
         intent = None
         dimensions = None
         if '::' in varprops:
-            elements = varprops.split('::')
+            elements = varprops.split('::', 1)
             varlist = elements[1].strip()
             varprops = Ftype.parse_attr_specs(elements[0].strip(), context)
             for prop in varprops:
@@ -759,7 +791,8 @@ def parse_fortran_var_decl(line, source, run_env):
             prop_dict = {}
             if '=' in var:
                 # We do not care about initializers
-                var = var[0:var.rindex('=')].rstrip()
+                var = Ftype.reassemble_parens(var, 'variable_list', context,
+                                              splitstr='=')[0]
             # end if
             # Scan <var> and gather variable pieces
             inchar = None # Character context
diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index 9bc39ef..73e9a25 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -23,8 +23,10 @@ from parse_tools import FORTRAN_ID, context_string
 from metadata_table import MetadataTable
 try:
     from parse_fortran import parse_fortran_var_decl, fortran_type_definition
+    from parse_fortran import strip_fortran_comment
 except ModuleNotFoundError:
     from .parse_fortran import parse_fortran_var_decl, fortran_type_definition
+    from .parse_fortran import strip_fortran_comment
 # end try
 from metavar import VarDictionary
 # pylint: enable=wrong-import-position
@@ -474,7 +476,7 @@ def parse_use_statement(statement, logger):
 
 def is_dummy_argument_statement(statement):
     """Return True iff <statement> is a dummy argument declaration"""
-    return _INTENT_STMT_RE.search(statement) is not None
+    return _INTENT_STMT_RE.search(strip_fortran_comment(statement)) is not None
 
 ########################################################################
 
-- 
2.43.0


From 6f7c1ba4447f01d3b9049dec67ad055560328e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:39 +0000
Subject: [PATCH 33/80] fix: accept intent(in out)

---
 scripts/fortran_tools/parse_fortran.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/fortran_tools/parse_fortran.py b/scripts/fortran_tools/parse_fortran.py
index e8841d4..e15876c 100644
--- a/scripts/fortran_tools/parse_fortran.py
+++ b/scripts/fortran_tools/parse_fortran.py
@@ -773,7 +773,7 @@ def parse_fortran_var_decl(line, source, run_env):
                                                    context=context)
                         # end if
                     else:
-                        intent = prop[6:].strip()[1:-1].strip()
+                        intent = ''.join(prop[6:].split())[1:-1]
                     # end if
                 elif prop[0:9:] == 'dimension':
                     dimensions = prop[9:].strip()
-- 
2.43.0


From 3e0af0b4e239694b3e6d39bb1c06e561ff8d9a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:39 +0000
Subject: [PATCH 34/80] fix: compare Fortran names without regard to case

---
 scripts/ccpp_capgen.py                | 3 ++-
 scripts/parse_tools/parse_checkers.py | 3 ++-
 scripts/parse_tools/parse_source.py   | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index 2fd35c0..7f53314 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -397,7 +397,8 @@ def check_fortran_against_metadata(meta_headers, fort_headers,
         fheader = None
         mtitle = mheader.title
         for findex in range(len(fort_headers)): #pylint: disable=consider-using-enumerate
-            if fort_headers[findex].title == mtitle:
+            # Fortran names are case insensitive
+            if fort_headers[findex].title.lower() == mtitle.lower():
                 fheader = fort_headers.pop(findex)
                 break
             # end if
diff --git a/scripts/parse_tools/parse_checkers.py b/scripts/parse_tools/parse_checkers.py
index 469bf1d..afe797e 100755
--- a/scripts/parse_tools/parse_checkers.py
+++ b/scripts/parse_tools/parse_checkers.py
@@ -1069,7 +1069,8 @@ def registered_fortran_ddt_names():
 ########################################################################
 
 def registered_fortran_ddt_name(name):
-    if name in _REGISTERED_FORTRAN_DDT_NAMES:
+    # Fortran names are case insensitive
+    if name.lower() in [x.lower() for x in _REGISTERED_FORTRAN_DDT_NAMES]:
         return name
     else:
         return None
diff --git a/scripts/parse_tools/parse_source.py b/scripts/parse_tools/parse_source.py
index 2ed0e5b..b3f189d 100644
--- a/scripts/parse_tools/parse_source.py
+++ b/scripts/parse_tools/parse_source.py
@@ -323,7 +323,8 @@ class ParseContext():
                                         self)
             # End if
             if (region_name is not None) and (curr_name is not None):
-                if region_name != curr_name:
+                # Fortran names are case insensitive
+                if region_name.lower() != curr_name.lower():
                     emsg = "Trying to exit {} {} while currently in {} {}"
                     raise ParseContextError(emsg.format(region_type,
                                                         region_name,
-- 
2.43.0


From 186f0f751acdbdeb7de0412fb36d8132d1cb1521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:39 +0000
Subject: [PATCH 35/80] fix: recognize end module and end program statements
 without a name

---
 scripts/fortran_tools/parse_fortran_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index 73e9a25..aa5e425 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -34,9 +34,9 @@ from metavar import VarDictionary
 _COMMENT_RE = re.compile(r"!.*$")
 _FIXED_COMMENT_RE = re.compile(r"(?i)([C*]|(?:[ ]{0,4}!))")
 _PROGRAM_RE = re.compile(r"(?i)\s*program\s+"+FORTRAN_ID)
-_ENDPROGRAM_RE = re.compile(r"(?i)\s*end\s*program\s+"+FORTRAN_ID+r"?")
+_ENDPROGRAM_RE = re.compile(r"(?i)\s*end\s*program(?:\s+"+FORTRAN_ID+r")?")
 _MODULE_RE = re.compile(r"(?i)\s*module\s+"+FORTRAN_ID)
-_ENDMODULE_RE = re.compile(r"(?i)\s*end\s*module\s+"+FORTRAN_ID+r"?")
+_ENDMODULE_RE = re.compile(r"(?i)\s*end\s*module(?:\s+"+FORTRAN_ID+r")?")
 _CONTAINS_RE = re.compile(r"(?i)\s*contains")
 _CONTINUE_RE = re.compile(r"(?i)&\s*(!.*)?$")
 _FIXED_CONTINUE_RE = re.compile(r"(?i)     [^0 ]")
-- 
2.43.0


From 350751239d591f993120927fa718f7e77fa7f2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:39 +0000
Subject: [PATCH 36/80] fix: ignore whitespace when comparing types

---
 scripts/ccpp_capgen.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index 7f53314..4d32b3b 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -179,6 +179,11 @@ def var_comp(prop_name, mvar, fvar, title, case_sensitive=False):
             fprop = fprop.lower()
         # end if
     # end if
+    if prop_name == 'type':
+        # Whitespace is optional (e.g., 'double precision')
+        mprop = ''.join(mprop.split())
+        fprop = ''.join(fprop.split())
+    # end if
     comp = mprop == fprop
     if not comp:
         errmsg = '{} mismatch ({} != {}) in {}{}'
-- 
2.43.0


From fa6d7e19e63df35052bc5b3850e1bb119a3b620b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:39 +0000
Subject: [PATCH 37/80] fix: compare the optional attribute of the first
 argument

---
 scripts/ccpp_capgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index 4d32b3b..a895218 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -311,7 +311,7 @@ def compare_fheader_to_mheader(meta_header, fort_header, logger):
             # missing from fortran declaration.
             # first check: if metadata says the variable is optional, does the fortran match?
             mopt  = mvar.get_prop_value('optional')
-            if find and mopt:
+            if (fvar is not None) and mopt:
                 fopt = fvar.get_prop_value('optional')
                 if (not fopt):
                     errmsg = f'Missing "optional" attribute in fortran declaration for variable {mname}, ' \
-- 
2.43.0


From 8c8e7cd3a38fe5744709db1c2e3f8d31eafa71cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:06 +0000
Subject: [PATCH 38/80] fix: compare all metadata variables with their Fortran
 declaration

---
 scripts/ccpp_capgen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index a895218..e92d2c5 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -338,7 +338,9 @@ def compare_fheader_to_mheader(meta_header, fort_header, logger):
                                              errmsg.format(lname, title))
                 # end if (no else, we already reported an out-of-place error
                 # Do not break to collect all missing variables
-                continue
+                if (fvar is None) or (fht in _ORDERED_TABLE_TYPES):
+                    continue
+                # end if
             # end if
             # At this point, we should have a Fortran variable
             if (not arrayref) and (fvar is None):
-- 
2.43.0


From bc956c94a96e08846ab3083eac49700477bc3d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:39 +0000
Subject: [PATCH 39/80] fix: report duplicate tables

---
 scripts/ccpp_capgen.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/scripts/ccpp_capgen.py b/scripts/ccpp_capgen.py
index e92d2c5..0a2848f 100755
--- a/scripts/ccpp_capgen.py
+++ b/scripts/ccpp_capgen.py
@@ -454,8 +454,8 @@ def duplicate_item_error(title, filename, itype, orig_item):
     """Raise an error indicating a duplicate item of type, <itype>"""
     errmsg = "Duplicate {typ}, {title}, found in {file}"
     edict = {'title':title, 'file':filename, 'typ':itype}
-    ofile = orig_item.context.filename
-    if ofile is not None:
+    ofile = orig_item.start_context(with_comma=False, nodir=False)
+    if ofile:
         errmsg = errmsg + ", original found in {ofile}"
         edict['ofile'] = ofile
     # end if
@@ -493,7 +493,8 @@ def parse_host_model_files(host_filenames, host_name, run_env):
         for table in mtables:
             if table.table_name in table_dict:
                 duplicate_item_error(table.table_name, filename,
-                                     table.table_type, table_dict[header.title])
+                                     table.table_type,
+                                     table_dict[table.table_name])
             else:
                 table_dict[table.table_name] = table
             # end if
@@ -551,7 +552,8 @@ def parse_scheme_files(scheme_filenames, run_env, skip_ddt_check=False):
         for table in mtables:
             if table.table_name in table_dict:
                 duplicate_item_error(table.table_name, filename,
-                                     table.table_type, table_dict[header.title])
+                                     table.table_type,
+                                     table_dict[table.table_name])
             else:
                 table_dict[table.table_name] = table
             # end if
-- 
2.43.0


From 0f466d47891a868b5c31ef72c970e43823f3a4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:52 +0000
Subject: [PATCH 40/80] fix: keep preprocessor definitions of one Fortran file
 out of the others

---
 scripts/fortran_tools/parse_fortran_file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index aa5e425..a50dbf7 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -349,6 +349,10 @@ def read_file(filename, preproc_defs=None, logger=None):
     Remvoved code results in blank lines, not removed lines
     """
     preproc_status = PreprocStack()
+    if preproc_defs is not None:
+        # Definitions in this file are only valid in this file
+        preproc_defs = dict(preproc_defs)
+    # End if
     if not os.path.exists(filename):
         raise IOError("read_file: file, '{}', does not exist".format(filename))
     # end if
-- 
2.43.0


From fc0a34a0c5e41088434a76c84a8a06777bdd0be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:52 +0000
Subject: [PATCH 41/80] fix: evaluate preprocessor conditions with several
 operators

---
 scripts/parse_tools/preprocess.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/scripts/parse_tools/preprocess.py b/scripts/parse_tools/preprocess.py
index 06b9414..a116461 100755
--- a/scripts/parse_tools/preprocess.py
+++ b/scripts/parse_tools/preprocess.py
@@ -54,32 +54,25 @@ def preproc_item_value(item, preproc_defs):
             symbol = args[0].id
             # defined is True as long as we know about the symbol
             value = symbol in preproc_defs
-        elif func == "notdefined":
-            args = item.args
-            if len(args) != 1:
-                raise PreprocError("Invalid defined statement, {}".format(ast.dump(item)))
-            # end if
-            symbol = args[0].id
-            # notdefined is True as long as we do not know about the symbol
-            value = symbol not in preproc_defs
         else:
             raise PreprocError("Cannot parse function {}".format(func))
         # end if
     elif isinstance(item, ast.BoolOp):
-        left_val = preproc_item_value(item.values[0], preproc_defs)
-        right_val = preproc_item_value(item.values[1], preproc_defs)
+        values = [preproc_bool(preproc_item_value(x, preproc_defs))
+                  for x in item.values]
         oper = item.op
         if isinstance(oper, ast.And):
-            value = preproc_bool(left_val) and preproc_bool(right_val)
+            value = all(values)
         elif isinstance(oper, ast.Or):
-            value = preproc_bool(left_val) or preproc_bool(right_val)
+            value = any(values)
         else:
             raise PreprocError("Unknown binary operator, {}".format(oper))
         # end if
     elif isinstance(item, ast.UnaryOp):
         val = preproc_item_value(item.operand, preproc_defs)
         oper = item.op
-        if isinstance(oper, ast.Not):
+        if isinstance(oper, ast.Invert):
+            # See parse_preproc_line
             value = not preproc_bool(val)
         else:
             raise PreprocError("Unknown unary operator, {}".format(oper))
@@ -153,13 +146,18 @@ def parse_preproc_line(line, preproc_defs):
             # In character context, just copy current character
             pline = pline + line[index]
         elif line[index:index+2] == '&&':
-            pline = pline + 'and'
+            pline = pline + ' and '
             index = index + 1
         elif line[index:index+2] == '||':
-            pline = pline + 'or'
+            pline = pline + ' or '
+            index = index + 1
+        elif line[index:index+2] == '!=':
+            pline = pline + '!='
             index = index + 1
         elif line[index] == '!':
-            pline = pline + "not"
+            # Use a Python operator which (unlike 'not') has the precedence
+            #   of the C operator
+            pline = pline + "~"
         else:
             match = __defined_re__.match(line[index:])
             if match is None:
-- 
2.43.0


From 1c1c9c399f7bea6ddde0b69abfc6a95204e31207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:52 +0000
Subject: [PATCH 42/80] fix: use the value of preprocessor symbols as cpp does

---
 scripts/parse_tools/preprocess.py | 42 +++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/scripts/parse_tools/preprocess.py b/scripts/parse_tools/preprocess.py
index a116461..b1fe7fb 100755
--- a/scripts/parse_tools/preprocess.py
+++ b/scripts/parse_tools/preprocess.py
@@ -30,13 +30,46 @@ def preproc_bool(value):
             ival = int(value)
             line_val = ival != 0
         except ValueError:
-            line_val = value != "0"
+            # An undefined symbol is False
+            line_val = False
         # end try
     # end if
     return line_val
 
 ########################################################################
 
+def preproc_symbol_value(symbol, preproc_defs):
+    """Find the value of <symbol>. If the definition of <symbol> is another
+    symbol, return its value. Return the name of an undefined symbol.
+    >>> preproc_symbol_value('FOO', {'FOO':'3'})
+    3
+    >>> preproc_symbol_value('FOO', {'FOO':'BAR', 'BAR':'2'})
+    2
+    >>> preproc_symbol_value('FOO', {'FOO':None})
+    1
+    >>> preproc_symbol_value('FOO', {'BAR':'2'})
+    'FOO'
+    """
+    value = symbol
+    seen = set()
+    while (value in preproc_defs) and (value not in seen):
+        seen.add(value)
+        value = preproc_defs[value]
+    # end while
+    if value is None:
+        # Symbol defined without a value (e.g., -DFOO)
+        value = 1
+    elif isinstance(value, str):
+        try:
+            value = int(value)
+        except ValueError:
+            pass
+        # end try
+    # end if
+    return value
+
+########################################################################
+
 def preproc_item_value(item, preproc_defs):
     """Find the value of a preproc <item> (part of a parsed
     preprocessor line)"""
@@ -111,12 +144,7 @@ def preproc_item_value(item, preproc_defs):
             # end if
         # end for
     elif isinstance(item, ast.Name):
-        id_key = item.id
-        if id_key in preproc_defs:
-            value = preproc_defs[id_key]
-        else:
-            value = id_key
-        # end if
+        value = preproc_symbol_value(item.id, preproc_defs)
     elif isinstance(item, ast.Num):
         value = item.n
     else:
-- 
2.43.0


From 5d14a573150699ab9f9ad0371c462ecb266fa2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:52 +0000
Subject: [PATCH 43/80] fix: recognize all spellings of preprocessor directives

---
 scripts/parse_tools/preprocess.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/scripts/parse_tools/preprocess.py b/scripts/parse_tools/preprocess.py
index b1fe7fb..3d1b8bd 100755
--- a/scripts/parse_tools/preprocess.py
+++ b/scripts/parse_tools/preprocess.py
@@ -11,6 +11,7 @@ import ast
 from parse_source import ParseSyntaxError
 
 __defined_re__ = re.compile(r"defined\s+([A-Za-z0-9_]+)")
+__comment_re__ = re.compile(r"/\*.*?\*/")
 
 ###############################################################################
 
@@ -156,6 +157,8 @@ def preproc_item_value(item, preproc_defs):
 
 def parse_preproc_line(line, preproc_defs):
     """Parse a preprocessor line into a tree that can be evaluated"""
+    # Remove comments
+    line = __comment_re__.sub(" ", line).strip()
     # Scan line and translate to python syntax
     inchar = None # Character context
     line_len = len(line)
@@ -221,14 +224,14 @@ def parse_preproc_line(line, preproc_defs):
 class PreprocStack(object):
     """Class to handle preprocess regions"""
 
-    ifdef_re = re.compile(r"#\s*ifdef\s+(.*)")
-    ifndef_re = re.compile(r"#\s*ifndef\s+(.*)")
+    ifdef_re = re.compile(r"#\s*ifdef\s+([A-Za-z0-9_]+)")
+    ifndef_re = re.compile(r"#\s*ifndef\s+([A-Za-z0-9_]+)")
     if_re = re.compile(r"#\s*if([^dn].*)")
-    elif_re = re.compile(r"#\s*elif\s(.*)")
-    ifelif_re = re.compile(r"#\s*(?:el)?if\s(.*)")
+    elif_re = re.compile(r"#\s*elif\b(.*)")
+    ifelif_re = re.compile(r"#\s*(?:el)?if\b(.*)")
     else_re = re.compile(r"#\s*else")
     end_re = re.compile(r"#\s*endif")
-    define_re = re.compile(r"#\s*define\s+([A-Za-z0-9_]+)\s+([^\s]*)")
+    define_re = re.compile(r"#\s*define\s+([A-Za-z0-9_]+)(?:\s+([^\s]*))?")
     undef_re = re.compile(r"#\s*undef\s+([A-Za-z0-9_]+)")
 
     def __init__(self):
@@ -383,7 +386,7 @@ class PreprocStack(object):
                 match = PreprocStack.define_re.match(sline)
                 if match is not None:
                     # Add (or replace) a symbol to our defs
-                    preproc_defs[match.group(1)] = match.group(2)
+                    preproc_defs[match.group(1)] = match.group(2) or ""
                 # end if
             # end if
             if (match is None) and self.in_true_region():
-- 
2.43.0


From 7261c473088331566edd31de23fd14a44b6cc9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:52 +0000
Subject: [PATCH 44/80] fix: only use the first true branch of a preprocessor
 conditional and report unbalanced ones

---
 scripts/fortran_tools/parse_fortran_file.py |  1 +
 scripts/parse_tools/preprocess.py           | 48 ++++++++++++++++-----
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index a50dbf7..016b739 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -461,6 +461,7 @@ def read_file(filename, preproc_defs=None, logger=None):
         # End if
         curr_line, curr_line_num = pobj.next_line()
     # End while
+    preproc_status.check_balanced(pobj)
     return pobj
 
 ########################################################################
diff --git a/scripts/parse_tools/preprocess.py b/scripts/parse_tools/preprocess.py
index 3d1b8bd..cf464f9 100755
--- a/scripts/parse_tools/preprocess.py
+++ b/scripts/parse_tools/preprocess.py
@@ -347,8 +347,13 @@ class PreprocStack(object):
             if match is None:
                 match = PreprocStack.if_re.match(sline)
                 if match is not None:
-                    line_val, success = self.process_if_line(sline,
-                                                             preproc_defs)
+                    if self.in_true_region():
+                        line_val, success = self.process_if_line(sline,
+                                                                 preproc_defs)
+                    else:
+                        # Do not evaluate the condition of a skipped region
+                        line_val, success = False, True
+                    # end if
                     self.enter_region(line_val)
                     if (not success) and (logger is not None):
                         lmsg = "WARNING: Preprocessor #if statement not handled, at {}"
@@ -359,9 +364,14 @@ class PreprocStack(object):
             if match is None:
                 match = PreprocStack.elif_re.match(sline)
                 if match is not None:
-                    line_val, success = self.process_if_line(sline,
-                                                             preproc_defs)
-                    self.modify_region(line_val)
+                    if self.can_modify_region():
+                        line_val, success = self.process_if_line(sline,
+                                                                 preproc_defs)
+                    else:
+                        # Do not evaluate the condition of a skipped region
+                        line_val, success = False, True
+                    # end if
+                    self.modify_region(line_val, pobj)
                     if (not success) and (logger is not None):
                         lmsg = "WARNING: Preprocessor #elif statement not handled, at {}"
                         logger.warning(lmsg.format(pobj))
@@ -373,7 +383,7 @@ class PreprocStack(object):
                 if match is not None:
                     # Always try to use True for else, modify_region will set
                     # correct value
-                    self.modify_region(True)
+                    self.modify_region(True, pobj, is_else=True)
                 # end if
             # end if
             if match is None:
@@ -403,7 +413,7 @@ class PreprocStack(object):
     def enter_region(self, valid):
         """Enter a new region (if, ifdef, ifndef) which may
         currently be valid"""
-        self._region_stack.append([valid, valid])
+        self._region_stack.append([valid, valid, False])
 
     def exit_region(self, pobj):
         """Leave the current (innermost) region"""
@@ -413,17 +423,35 @@ class PreprocStack(object):
         # end if
         self._region_stack.pop()
 
-    def modify_region(self, valid):
+    def can_modify_region(self):
+        """Return True iff the current (innermost) region could become True"""
+        return ((not self._region_stack) or
+                ((not self._region_stack[-1][0]) and
+                 all([x[1] for x in self._region_stack[:-1]])))
+
+    def modify_region(self, valid, pobj, is_else=False):
         """Possibly modify the current (innermost) region.
         A region can be modified from False to True.
         Any attempt to modify a region which has been True results in False
         because after a region has been True, any #elif or #else must skipped.
         """
+        if (not self._region_stack) or self._region_stack[-1][2]:
+            emsg = "#{} found with no matching #if, #ifdef, or #ifndef"
+            raise ParseSyntaxError(emsg.format("else" if is_else else "elif"),
+                                   context=pobj)
+        # end if
         curr_region = self._region_stack.pop()
         if curr_region[0]:
-            self._region_stack.append([curr_region[0], False])
+            self._region_stack.append([True, False, is_else])
         else:
-            self._region_stack.append([curr_region[0], valid])
+            self._region_stack.append([valid, valid, is_else])
+        # end if
+
+    def check_balanced(self, pobj):
+        """Check that all regions have been left"""
+        if self._region_stack:
+            emsg = "#if, #ifdef, or #ifndef found with no matching #endif"
+            raise ParseSyntaxError(emsg, context=pobj)
         # end if
 
     def in_true_region(self):
-- 
2.43.0


From 54e88e04e2074b27acba54bd02cb80e13c7dd4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 45/80] fix: ignore whitespace before variable names and in
 dimension ranges of metadata

---
 scripts/metadata_table.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index 47d99b6..2711482 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -617,9 +617,9 @@ class MetadataSection(ParseSource):
 
     __header_start = re.compile(r"(?i)\s*\[\s*ccpp-arg-table\s*\]")
 
-    __var_start = re.compile(r"^\[\s*"+FORTRAN_ID+r"\s*\]$")
+    __var_start = re.compile(r"^\s*\[\s*"+FORTRAN_ID+r"\s*\]$")
 
-    __vref_start = re.compile(r"^\[\s*"+FORTRAN_SCALAR_REF+r"\s*\]$")
+    __vref_start = re.compile(r"^\s*\[\s*"+FORTRAN_SCALAR_REF+r"\s*\]$")
 
     __html_template__ = """
 <html>
@@ -925,6 +925,9 @@ class MetadataSection(ParseSource):
                             porig = pval
                             pval = []
                             for dim in porig:
+                                # Whitespace is not significant
+                                dim = ':'.join([x.strip()
+                                                for x in dim.split(':')])
                                 if ':' in dim:
                                     pval.append(dim)
                                 else:
-- 
2.43.0


From 3e20e3ef0f7158ab861462ccaa5c532294330fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 46/80] fix: reject empty values of required metadata
 properties

---
 scripts/metadata_table.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index 2711482..72193b0 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -904,6 +904,10 @@ class MetadataSection(ParseSource):
                         check_prop = Var.get_prop(pname)
                         if check_prop is not None:
                             pval = check_prop.valid_value(pval_str)
+                            if (pval == "") and (not check_prop.optional):
+                                # A required property needs a value
+                                pval = None
+                            # end if
                         else:
                             emsg = "variable property name"
                             self.__pobj.add_syntax_err(emsg, token=pname)
-- 
2.43.0


From d57e1c1fd16349dccb8fb9c179b461efce47b50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 47/80] fix: report unknown first properties and missing
 section names in metadata

---
 scripts/metadata_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index 72193b0..6460c8b 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -914,7 +914,7 @@ class MetadataSection(ParseSource):
                             self.__section_valid = False
                             var_ok = False
                         # end if
-                        if pval is None:
+                        if (check_prop is not None) and (pval is None):
                             errmsg = "'{}' property value"
                             self.__pobj.add_syntax_err(errmsg.format(pname),
                                                        token=pval_str)
@@ -1156,7 +1156,7 @@ class MetadataSection(ParseSource):
             mstr = "Section type, '{}', does not match table type, '{}'"
             mismatch += mstr.format(self.header_type, table_type)
         # end if
-        if self.header_type == SCHEME_HEADER_TYPE:
+        if (self.header_type == SCHEME_HEADER_TYPE) and (self.title is not None):
             # For schemes, strip off the scheme function phase (e.g., _init)
             sect_func, _, _ = CCPP_STATE_MACH.function_match(self.title)
         else:
-- 
2.43.0


From 8c1940e51f725d916640b86ed3ec3cf4602c713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:38 +0000
Subject: [PATCH 48/80] fix: report molar masses which are not numbers

---
 scripts/parse_tools/parse_checkers.py | 2 +-
 scripts/var_props.py                  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/parse_tools/parse_checkers.py b/scripts/parse_tools/parse_checkers.py
index afe797e..b4dd436 100755
--- a/scripts/parse_tools/parse_checkers.py
+++ b/scripts/parse_tools/parse_checkers.py
@@ -977,7 +977,7 @@ def check_molar_mass(test_val, prop_dict, error):
     # Check if input value is an int or float
     try:
         test_val = float(test_val)
-        if test_val < 0.0 or test_val > _MAX_MOLAR_MASS:
+        if not (0.0 <= test_val <= _MAX_MOLAR_MASS):
            if error:
                raise CCPPError(f"{test_val} is not a valid molar mass")
            else:
diff --git a/scripts/var_props.py b/scripts/var_props.py
index 7a3101d..a94b16c 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -689,7 +689,7 @@ class VariableProperty:
                         valid_val = None # i.e. pass
                 else:
                     valid_val = tval
-            except CCPPError:
+            except ValueError:
                 valid_val = None # Redundant but more expressive than pass
         elif self.ptype is float:
             try:
@@ -703,7 +703,7 @@ class VariableProperty:
                 else:
                     valid_val = tval
                 # end if
-            except CCPPError:
+            except ValueError:
                 valid_val = None
             # end try
         elif self.ptype is list:
-- 
2.43.0


From 086287450e3eee32dfc44ec86e1a6827ecc51ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:23 +0000
Subject: [PATCH 49/80] fix: keep the meaning of long statements and character
 literals when breaking lines

---
 scripts/fortran_tools/fortran_write.py | 88 ++++++++++++++++----------
 1 file changed, 53 insertions(+), 35 deletions(-)

diff --git a/scripts/fortran_tools/fortran_write.py b/scripts/fortran_tools/fortran_write.py
index 5b186c1..87b59a5 100644
--- a/scripts/fortran_tools/fortran_write.py
+++ b/scripts/fortran_tools/fortran_write.py
@@ -89,6 +89,29 @@ end module {module}'''
 
     ###########################################################################
 
+    @staticmethod
+    def _open_quote(test_str, quote=""):
+        """Return the delimiter of the character context <test_str> ends in or
+        an empty string if <test_str> does not end in a character context.
+        <quote> is the delimiter of the character context <test_str> starts in.
+        >>> FortranWriter._open_quote("hi'mom")
+        "'"
+        >>> FortranWriter._open_quote("hi'mom", quote="'")
+        ''
+        """
+        for char in test_str:
+            if quote:
+                if char == quote:
+                    quote = ""
+                # end if
+            elif char in ["'", '"']:
+                quote = char
+            # end if
+        # end for
+        return quote
+
+    ###########################################################################
+
     @staticmethod
     def _in_quote(test_str):
         """Return True if <test_str> ends in a character context.
@@ -101,32 +124,17 @@ end module {module}'''
         >>> FortranWriter._in_quote("'hi"" mom'")
         False
         """
-        in_single_char = False
-        in_double_char = False
-        for char in test_str:
-            if in_single_char:
-                if char == "'":
-                    in_single_char = False
-                # end if
-            elif in_double_char:
-                if char == '"':
-                    in_double_char = False
-                # end if
-            elif char == "'":
-                in_single_char = True
-            elif char == '"':
-                in_double_char = True
-            # end if
-        # end for
-        return in_single_char or in_double_char
+        return FortranWriter._open_quote(test_str) != ""
 
     ###########################################################################
 
-    def write(self, statement, indent_level, continue_line=False):
+    def write(self, statement, indent_level, continue_line=False, quote=""):
         """Write <statement> to the open file, indenting to <indent_level>
         (see self.indent).
         If <continue_line> is True, treat this line as a continuation of
-        a previous statement."""
+        a previous statement.
+        If <quote> is not empty, this line starts in a character context
+        delimited by <quote>."""
         if isinstance(statement, list):
             for stmt in statement:
                 self.write(stmt, indent_level, continue_line)
@@ -152,9 +160,10 @@ end module {module}'''
                 # Collect pretty break points
                 spaces = list()
                 commas = list()
-                sptr = len(istr)
-                in_single_char = False
-                in_double_char = False
+                sptr = line_len - len(ostmt)
+                in_single_char = quote == "'"
+                in_double_char = quote == '"'
+                comment_start = None
                 while sptr < line_len:
                     if in_single_char:
                         if outstr[sptr] == "'":
@@ -171,7 +180,9 @@ end module {module}'''
                     elif outstr[sptr] == '!':
                         # Comment in non-character context
                         spaces.append(sptr-1)
-                        in_comment = "! " # No continue for comment
+                        if comment_start is None:
+                            comment_start = sptr
+                        # end if
                         if ((not is_comment_stmt) and
                             (sptr >= self.__max_comment_start)):
                             # suck in rest of line
@@ -193,9 +204,9 @@ end module {module}'''
                 #    comment line but before any significant characters
                 if outstr.lstrip().startswith('!'):
                     first_space = outstr.index('!') + 1
-                    while ((outstr[first_space] == '!' or
-                            outstr[first_space] == ' ') and
-                           (first_space < line_len)):
+                    while ((first_space < line_len) and
+                           (outstr[first_space] == '!' or
+                            outstr[first_space] == ' ')):
                         first_space += 1
                     # end while
                     if min(spaces) < first_space:
@@ -210,22 +221,28 @@ end module {module}'''
                     # This is probably a bad situation so we have to break
                     #   in an ugly spot
                     best = self.__line_max - 1
-                    if len(outstr) > best:
+                    if outstr[best:best+2] in ["''", '""']:
+                        # Do not split an escaped delimiter
+                        best = best - 1
+                    # end if
+                    if len(outstr) > best + 1:
                         line_continue = '&'
                     # end if
                 # end if
-                if len(outstr) > best:
-                    if self._in_quote(outstr[0:best+1]):
+                quote = self._open_quote(outstr[0:best+1], quote=quote)
+                if (not line_continue) and (len(outstr) > best + 1):
+                    if quote:
                         line_continue = '&'
                     else:
                         # If next line is just comment, do not use continue
                         line_continue = outstr[best+1:].lstrip()[0] != '!'
                     # end if
-                elif not line_continue:
-                    line_continue = len(outstr) > best
-                # End if
-                if in_comment or is_comment_stmt:
+                # end if
+                if ((comment_start is not None) and
+                    (best + 1 >= comment_start)):
+                    in_comment = "! " # No continue for comment
                     line_continue = False
+                    quote = ""
                 # end if
                 if line_continue:
                     fill = "{}&".format((self.__line_fill - best)*' ')
@@ -242,7 +259,8 @@ end module {module}'''
                 if isinstance(line_continue, str) and statement:
                     statement = line_continue + statement
                 # end if
-                self.write(statement, indent_level, continue_line=line_continue)
+                self.write(statement, indent_level, continue_line=line_continue,
+                           quote=quote)
             else:
                 self.__file.write("{}\n".format(outstr))
             # End if
-- 
2.43.0


From 4160b4f14871c106552ce78ae8612fc027037181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:23 +0000
Subject: [PATCH 50/80] fix: accept tendency units per second of any state
 units only

---
 scripts/var_props.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scripts/var_props.py b/scripts/var_props.py
index a94b16c..262e103 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -958,8 +958,7 @@ class VarCompatObj:
             # Check units argument
             if is_tend:
                 # A tendency variable's units should be "<var2_units> s-1"
-                tendency_split_units = var1_units.split('s-1')[0].strip()
-                if tendency_split_units != var2_units:
+                if var1_units != f"{var2_units} s-1":
                     # We don't currently support unit conversions for tendency variables
                     emsg = f"\nMismatch tendency variable units '{var1_units}'"
                     emsg += f" for variable '{var1_stdname}'."
-- 
2.43.0


From 6074170e937d419477ad55b3a4f8b30d24e7c3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:04 +0000
Subject: [PATCH 51/80] fix: ccpp_prebuild keeps variables of schemes whose
 name contains a stage name

---
 scripts/ccpp_prebuild.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index b8829b6..6305484 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -380,9 +380,12 @@ def filter_metadata(metadata, arguments, dependencies, schemes_in_files, suites)
         for var in metadata[var_name][:]:
             container_string = decode_container(var.container)
             subroutine = container_string[container_string.find('SUBROUTINE')+len('SUBROUTINE')+1:]
-            # Replace the full CCPP stage name with the abbreviated version
+            # Replace the full CCPP stage name with the abbreviated version;
+            # the scheme name itself may contain the name of a stage
             for ccpp_stage in CCPP_STAGES.keys():
-                subroutine = subroutine.replace(ccpp_stage, CCPP_STAGES[ccpp_stage])
+                if subroutine.endswith('_' + ccpp_stage):
+                    subroutine = subroutine[:-len(ccpp_stage)] + CCPP_STAGES[ccpp_stage]
+                    break
             for suite in suites:
                 if subroutine in suite.all_subroutines_called:
                     keep = True
-- 
2.43.0


From e9b1638b2dadd56b75eb6c2f3a190889627b31de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:15 +0000
Subject: [PATCH 52/80] fix: report a prebuild group stage called before init
 to the caller

---
 scripts/mkstatic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 618d3a8..a2dceb6 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1009,6 +1009,7 @@ end module {module}
       if (.not.initialized({ccpp_var_name}%ccpp_instance)) then
         write({target_name_msg},'(*(a))') '{name}_timestep_init called before {name}_init'
         {target_name_flag} = 1
+        ierr = {target_name_flag}
         return
       end if
 ''',
@@ -1016,6 +1017,7 @@ end module {module}
       if (.not.initialized({ccpp_var_name}%ccpp_instance)) then
         write({target_name_msg},'(*(a))') '{name}_run called before {name}_init'
         {target_name_flag} = 1
+        ierr = {target_name_flag}
         return
       end if
 ''',
@@ -1023,6 +1025,7 @@ end module {module}
       if (.not.initialized({ccpp_var_name}%ccpp_instance)) then
         write({target_name_msg},'(*(a))') '{name}_timestep_finalize called before {name}_init'
         {target_name_flag} = 1
+        ierr = {target_name_flag}
         return
       end if
 ''',
-- 
2.43.0


From 5d189a30fb507d450960c9498652075ff82db5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:25 +0000
Subject: [PATCH 53/80] fix: prebuild group finalize only resets the flag of
 its own instance

---
 scripts/mkstatic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index a2dceb6..c672a66 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1042,7 +1042,7 @@ end module {module}
         'run' : '',
         'timestep_finalize' : '',
         'finalize' : '''
-      initialized = .false.
+      initialized({ccpp_var_name}%ccpp_instance) = .false.
 ''',
     }
 
@@ -1906,7 +1906,8 @@ end module {module}
             #we still need to add the host-supplied ccpp_t variable to the init group caps so that it is
             #available for setting the initialized flag for the particular instance being called. Otherwise,
             #the initialized_set_block for the init phase tries to reference the unavailable ccpp_t variable.
-            if (ccpp_stage == 'init' and not self.parents[ccpp_stage]):
+            #The same applies to the finalize stage, which resets the flag of this instance.
+            if (ccpp_stage in ['init', 'finalize'] and not self.parents[ccpp_stage]):
                 ccpp_var.intent = 'in'
                 self.parents[ccpp_stage].update({ccpp_var.standard_name:ccpp_var})
 
-- 
2.43.0


From 2963d2c699ada1c30c132d9d736e69ec1c70a437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:34 +0000
Subject: [PATCH 54/80] fix: add chunk bounds to prebuild caps of hosts with
 chunked and blocked data

---
 scripts/mkstatic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index c672a66..78e1f0e 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1139,7 +1139,7 @@ end module {module}
                                     and not add_var in additional_variables_required + arguments[scheme_name][subroutine_name]:
                                 logging.debug("Adding variable {} for handling blocked data structures".format(add_var))
                                 additional_variables_required.append(add_var)
-                    elif ccpp_stage == 'run' and \
+                    if ccpp_stage == 'run' and \
                             CCPP_HORIZONTAL_LOOP_BEGIN in metadata_define.keys() and \
                             CCPP_HORIZONTAL_LOOP_END in metadata_define.keys() and \
                             CCPP_CHUNK_EXTENT in metadata_define.keys():
-- 
2.43.0


From 20ec1b268526cc6f27afe998b2609f41d289d43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:42 +0000
Subject: [PATCH 55/80] fix: prebuild caps never declare a parent variable
 intent(out)

---
 scripts/mkstatic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index 78e1f0e..c99241a 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1298,9 +1298,12 @@ end module {module}
                                     # in var_local_name_define or the actual parent of that variable.
                                     if not parent_standard_name in self.parents[ccpp_stage].keys():
                                         self.parents[ccpp_stage][parent_standard_name] = copy.deepcopy(parent_var)
-                                        # Copy the intent of the actual variable being processed
+                                        # Copy the intent of the actual variable being processed. An intent(out)
+                                        # variable may be only a part of its parent (a component of a DDT, an array
+                                        # section), everything else in the parent must retain its value.
                                         if local_name_define == parent_local_name_define:
-                                            self.parents[ccpp_stage][parent_standard_name].intent = var.intent
+                                            self.parents[ccpp_stage][parent_standard_name].intent = \
+                                                'inout' if var.intent == 'out' else var.intent
                                         # It's an index for the actual variable being processed --> intent(in)
                                         else:
                                             self.parents[ccpp_stage][parent_standard_name].intent = 'in'
-- 
2.43.0


From fa4a322829c5d6e9f3899010587c55f5e7aae6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:51 +0000
Subject: [PATCH 56/80] fix: convert the units of an array section in prebuild
 caps for every conversion formula

---
 scripts/mkstatic.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index c99241a..bca0074 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1756,10 +1756,9 @@ end module {module}
                                 actions_in += f'        allocate({tmpvar.local_name}{dim_string_allocate})\n'
                             if var.actions['in']:
                                 # Add unit conversion before entering the subroutine
-                                actions_in += '        {t} = {c}{d}\n'.format(t=tmpvar.local_name,
-                                                                              c=var.actions['in'].format(var=tmpvar.target.replace(dim_string_target_name, ''),
-                                                                                                         kind=kind_string),
-                                                                              d=dim_string)
+                                actions_in += '        {t} = {c}\n'.format(t=tmpvar.local_name,
+                                                                           c=var.actions['in'].format(var=tmpvar.target.replace(dim_string_target_name, '') + dim_string,
+                                                                                                      kind=kind_string))
                                 # If the variable is conditionally allocated, assign pointer
                                 if not conditional == '.true.':
                                     actions_in += '        {p} => {t}{d}\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p",
-- 
2.43.0


From 1bc7b1ce57d3a5c8d0066562f94b5a1e940a4107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:00 +0000
Subject: [PATCH 57/80] fix: associate and nullify pointers of converted
 optional variables in prebuild caps

---
 scripts/mkstatic.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index bca0074..cfbc61c 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1759,19 +1759,19 @@ end module {module}
                                 actions_in += '        {t} = {c}\n'.format(t=tmpvar.local_name,
                                                                            c=var.actions['in'].format(var=tmpvar.target.replace(dim_string_target_name, '') + dim_string,
                                                                                                       kind=kind_string))
-                                # If the variable is conditionally allocated, assign pointer
-                                if not conditional == '.true.':
-                                    actions_in += '        {p} => {t}{d}\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p",
-                                                                                   t=tmpvar.local_name, d=dim_string_allocate)
+                            # If the variable is conditionally allocated, assign pointer
+                            if not conditional == '.true.':
+                                actions_in += '        {p} => {t}{d}\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p",
+                                                                               t=tmpvar.local_name, d=dim_string_allocate)
                             if var.actions['out']:
                                 # Add unit conversion after returning from the subroutine
                                 actions_out  += '        {v}{d} = {c}\n'.format(v=tmpvar.target.replace(dim_string_target_name, ''),
                                                                                 d=dim_string,
                                                                                 c=var.actions['out'].format(var=tmpvar.local_name,
                                                                                                             kind=kind_string))
-                                # If the variable is conditionally allocated, nullify pointer
-                                if not conditional == '.true.':
-                                    actions_out += '        nullify({p})\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p")
+                            # If the variable is conditionally allocated, nullify pointer
+                            if not conditional == '.true.':
+                                actions_out += '        nullify({p})\n'.format(p=f"{tmpptr.local_name}_array({CCPP_INTERNAL_VARIABLES[CCPP_THREAD_NUMBER]})%p")
 
                             if tmpvar.rank:
                                 # Add deallocate statement if the variable has a rank > 0
-- 
2.43.0


From d32a1a249d7058e6dbd58834ab75165bc1976e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:43 +0000
Subject: [PATCH 58/80] fix: ccpp_prebuild processes all suites in a defined
 order

---
 scripts/ccpp_prebuild.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index 6305484..b3ce56e 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -167,7 +167,7 @@ def get_all_suites(suites_dir):
     success = False
     logging.info("No suites were given, compiling a list of all suites")
     sdfs = []
-    for f in os.listdir(suites_dir):
+    for f in sorted(os.listdir(suites_dir)):
         match = SUITE_DEFINITION_FILENAME_PATTERN.match(f)
         if match:
             logging.info('Adding suite definition file {}'.format(f))
-- 
2.43.0


From a52e7362b1b38622518075a2f59baf036d88b9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 59/80] fix: prebuild rewrites every stale or missing snippet,
 not only those of make

---
 scripts/ccpp_prebuild.py | 69 ++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 45 deletions(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index b3ce56e..0c14936 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -632,21 +632,14 @@ def generate_typedefs_makefile(metadata_define, typedefs_makefile, typedefs_cmak
     makefile.write(typedefs)
     cmakefile.write(typedefs)
     sourcefile.write(typedefs)
-    if os.path.isfile(typedefs_makefile) and \
-            filecmp.cmp(typedefs_makefile, makefile.filename):
-        os.remove(makefile.filename)
-        os.remove(cmakefile.filename)
-        os.remove(sourcefile.filename)
-    else:
-        if os.path.isfile(typedefs_makefile):
-            os.remove(typedefs_makefile)
-        if os.path.isfile(typedefs_cmakefile):
-            os.remove(typedefs_cmakefile)
-        if os.path.isfile(typedefs_sourcefile):
-            os.remove(typedefs_sourcefile)
-        os.rename(makefile.filename, typedefs_makefile)
-        os.rename(cmakefile.filename, typedefs_cmakefile)
-        os.rename(sourcefile.filename, typedefs_sourcefile)
+    for (new_file, old_file) in ((makefile.filename, typedefs_makefile), (cmakefile.filename, typedefs_cmakefile),
+                                 (sourcefile.filename, typedefs_sourcefile)):
+        if os.path.isfile(old_file) and filecmp.cmp(old_file, new_file):
+            os.remove(new_file)
+        else:
+            if os.path.isfile(old_file):
+                os.remove(old_file)
+            os.rename(new_file, old_file)
     #
     logging.info('Added {0} typedefs to {1}, {2}, {3}'.format(
            len(typedefs), typedefs_makefile, typedefs_cmakefile, typedefs_sourcefile))
@@ -669,21 +662,14 @@ def generate_schemes_makefile(schemes, schemes_makefile, schemes_cmakefile, sche
     makefile.write(schemes_with_abspath)
     cmakefile.write(schemes_with_abspath)
     sourcefile.write(schemes_with_abspath)
-    if os.path.isfile(schemes_makefile) and \
-            filecmp.cmp(schemes_makefile, makefile.filename):
-        os.remove(makefile.filename)
-        os.remove(cmakefile.filename)
-        os.remove(sourcefile.filename)
-    else:
-        if os.path.isfile(schemes_makefile):
-            os.remove(schemes_makefile)
-        if os.path.isfile(schemes_cmakefile):
-            os.remove(schemes_cmakefile)
-        if os.path.isfile(schemes_sourcefile):
-            os.remove(schemes_sourcefile)
-        os.rename(makefile.filename, schemes_makefile)
-        os.rename(cmakefile.filename, schemes_cmakefile)
-        os.rename(sourcefile.filename, schemes_sourcefile)
+    for (new_file, old_file) in ((makefile.filename, schemes_makefile), (cmakefile.filename, schemes_cmakefile),
+                                 (sourcefile.filename, schemes_sourcefile)):
+        if os.path.isfile(old_file) and filecmp.cmp(old_file, new_file):
+            os.remove(new_file)
+        else:
+            if os.path.isfile(old_file):
+                os.remove(old_file)
+            os.rename(new_file, old_file)
     #
     logging.info('Added {0} schemes to {1}, {2}, {3}'.format(
            len(schemes_with_abspath), schemes_makefile, schemes_cmakefile, schemes_sourcefile))
@@ -706,21 +692,14 @@ def generate_caps_makefile(caps, caps_makefile, caps_cmakefile, caps_sourcefile,
     makefile.write(caps_with_abspath)
     cmakefile.write(caps_with_abspath)
     sourcefile.write(caps_with_abspath)
-    if os.path.isfile(caps_makefile) and \
-            filecmp.cmp(caps_makefile, makefile.filename):
-        os.remove(makefile.filename)
-        os.remove(cmakefile.filename)
-        os.remove(sourcefile.filename)
-    else:
-        if os.path.isfile(caps_makefile):
-            os.remove(caps_makefile)
-        if os.path.isfile(caps_cmakefile):
-            os.remove(caps_cmakefile)
-        if os.path.isfile(caps_sourcefile):
-            os.remove(caps_sourcefile)
-        os.rename(makefile.filename, caps_makefile)
-        os.rename(cmakefile.filename, caps_cmakefile)
-        os.rename(sourcefile.filename, caps_sourcefile)
+    for (new_file, old_file) in ((makefile.filename, caps_makefile), (cmakefile.filename, caps_cmakefile),
+                                 (sourcefile.filename, caps_sourcefile)):
+        if os.path.isfile(old_file) and filecmp.cmp(old_file, new_file):
+            os.remove(new_file)
+        else:
+            if os.path.isfile(old_file):
+                os.remove(old_file)
+            os.rename(new_file, old_file)
     #
     logging.info('Added {0} auto-generated caps to {1} and {2}, {3}'.format(
            len(caps_with_abspath), caps_makefile, caps_cmakefile, caps_sourcefile))
-- 
2.43.0


From acb1672ff68dd1be369f9faa9af4817195ae9a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:53 +0000
Subject: [PATCH 60/80] fix: ccpp_fortran_to_metadata writes each table once,
 with the optional attribute and known dimension names

---
 scripts/ccpp_fortran_to_metadata.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/scripts/ccpp_fortran_to_metadata.py b/scripts/ccpp_fortran_to_metadata.py
index 4c301d1..5f454b4 100755
--- a/scripts/ccpp_fortran_to_metadata.py
+++ b/scripts/ccpp_fortran_to_metadata.py
@@ -96,7 +96,13 @@ def write_metadata_file(mfilename, ftables, sep):
             # Write the table properties section
             # Note that there may be extra tables depending on how the
             # Fortran was parsed.
-            if (not table_name) or (table_name != table.table_name):
+            if not any(sect.variable_list() or
+                       (sect.header_type != 'module')
+                       for sect in table.sections()):
+                # A module without any metadata variables needs no table
+                continue
+            # end if
+            if table_name.lower() != table.table_name.lower():
                 outfile.write("{}[ccpp-table-properties]{}".format(header_sep,
                                                                    os.linesep))
                 header_sep = sep + os.linesep
@@ -119,7 +125,7 @@ def write_metadata_file(mfilename, ftables, sep):
                     prop = var.get_prop_value('standard_name')
                     outfile.write('  standard_name = {}{}'.format(prop,
                                                                   os.linesep))
-                    lname_dict[lname] = prop
+                    lname_dict[lname.lower()] = prop
                     prop = var.get_prop_value('units')
                     if not prop:
                         prop = 'enter_units'
@@ -143,6 +149,7 @@ def write_metadata_file(mfilename, ftables, sep):
                         for dim in dims:
                             dslist = list()
                             for dimspec in dim.split(':'):
+                                dimspec = dimspec.strip().lower()
                                 if dimspec and (dimspec in lname_dict):
                                     dstr = lname_dict[dimspec]
                                 else:
@@ -161,6 +168,9 @@ def write_metadata_file(mfilename, ftables, sep):
                         outfile.write('  intent = {}{}'.format(prop,
                                                                os.linesep))
                     # end if
+                    if var.get_prop_value('optional'):
+                        outfile.write('  optional = True{}'.format(os.linesep))
+                    # end if
                 # end for
             # end for
         # end for
-- 
2.43.0


From d7b2a2dbb8b674f1245ae0765c7f30264ecf61f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:04 +0000
Subject: [PATCH 61/80] fix: prebuild checks every requested variable against
 the host, not only the first of a name

---
 scripts/ccpp_prebuild.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index 0c14936..87f9918 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -460,14 +460,15 @@ def compare_metadata(metadata_define, metadata_request):
                             ' Multiple definitions in {0}'.format(provided_by)
             logging.error(error_message)
             continue
-        # Check that the variable properties are compatible between the model and the schemes;
-        # because we know that all variables in the metadata_request[var_name] list are compatible,
-        # it is sufficient to test the first entry against (the unique) metadata_define[var_name][0].
-        if not metadata_request[var_name][0].compatible(metadata_define[var_name][0]):
+        # Check that the variable properties are compatible between the model and the schemes. This must
+        # be done for every variable in the metadata_request[var_name] list: all of them are compatible with
+        # the first one, but its character length may be len=*, which is compatible with any length.
+        incompatible_vars = [var for var in metadata_request[var_name] if not var.compatible(metadata_define[var_name][0])]
+        if incompatible_vars:
             success = False
             error_message = '  incompatible entries in metadata for variable {0}:\n'.format(var_name) +\
                             '    provided:  {0}\n'.format(metadata_define[var_name][0].print_debug()) +\
-                            '    requested: {0}'.format(metadata_request[var_name][0].print_debug())
+                            '    requested: {0}'.format(incompatible_vars[0].print_debug())
             logging.error(error_message)
             continue
         # Check for and register unit conversions if necessary. This must be done for each registered
-- 
2.43.0


From 14e91032c3b76d92f1c60459148c9bf7b5813bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:15 +0000
Subject: [PATCH 62/80] fix: prebuild rejects schemes and types whose table is
 not in the metadata file

---
 scripts/metadata_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scripts/metadata_parser.py b/scripts/metadata_parser.py
index d1277eb..e3f314e 100755
--- a/scripts/metadata_parser.py
+++ b/scripts/metadata_parser.py
@@ -118,6 +118,11 @@ def read_new_metadata(filename, module_name, table_name, scheme_name = None, sub
     # Record dependencies for the metadata table (only applies to schemes)
     dependencies = []
 
+    # The requested table must exist in the metadata file (it can be empty)
+    if not any(metadata_section.title == table_name for new_metadata_header in new_metadata_headers
+               for metadata_section in new_metadata_header.sections()):
+        raise Exception("Metadata table {0} not found in metadata file {1}".format(table_name, filename))
+
     # Convert new metadata for requested table to old metadata dictionary
     metadata = collections.OrderedDict()
     for new_metadata_header in new_metadata_headers:
-- 
2.43.0


From 8cce6a148179f70e8528eccdc49eb9924d448dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:25 +0000
Subject: [PATCH 63/80] fix: prebuild reports optional host variables instead
 of ending in an AttributeError

---
 scripts/metadata_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/metadata_parser.py b/scripts/metadata_parser.py
index e3f314e..6013efe 100755
--- a/scripts/metadata_parser.py
+++ b/scripts/metadata_parser.py
@@ -219,7 +219,7 @@ def read_new_metadata(filename, module_name, table_name, scheme_name = None, sub
                     raise Exception("Unexpected result: no optional attribute received from metadata parser for {} / {}".format(standard_name,table_name))
                 elif not scheme_name and new_var.get_prop_value('optional'):
                     raise Exception("Host variable {} in table {} has metadata attribute optional={}, which is not allowed".format(
-                                    standard_name,table_name, new_var.get_prop_value('optional').lower()))
+                                    standard_name,table_name, new_var.get_prop_value('optional')))
                 elif new_var.get_prop_value('optional'):
                     optional = 'T'
                 else:
-- 
2.43.0


From f9d30a7bafa54419362ebd65183254c0a8120c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:36 +0000
Subject: [PATCH 64/80] fix: scheme names of metadata files ending in a table
 without arguments can be read

---
 scripts/metadata_table.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index 6460c8b..915978a 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -236,7 +236,7 @@ def find_scheme_names(filename):
     while context.line_num <= num_lines:
         if MetadataTable.table_start(fin_lines[context.line_num - 1]):
             found_start = False
-            while not found_start:
+            while (not found_start) and (context.line_num < num_lines):
                 line = fin_lines[context.line_num].strip()
                 context.line_num += 1
                 if line and (line[0] == '['):
@@ -252,10 +252,10 @@ def find_scheme_names(filename):
                         # end if
                     # end for
                 # end if
-                if context.line_num > num_lines:
-                    break
-                # end if
             # end while
+            if not found_start:
+                break
+            # end if
         else:
             context.line_num += 1
         # end if
-- 
2.43.0


From 3878e9a06fe4ba573380660a7640f178555dedc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:46 +0000
Subject: [PATCH 65/80] fix: prebuild rejects the horizontal loop extent
 outside of the run phase

---
 scripts/mkstatic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/mkstatic.py b/scripts/mkstatic.py
index cfbc61c..78911a9 100755
--- a/scripts/mkstatic.py
+++ b/scripts/mkstatic.py
@@ -1455,7 +1455,7 @@ end module {module}
                                                             f"horizontal dimension for {var_standard_name} is {var.dimensions}")
                                         # This should not happen when parsing metadata with capgen's metadata parser, remove?
                                         if CCPP_HORIZONTAL_LOOP_BEGIN in dims or CCPP_HORIZONTAL_LOOP_END in dims or \
-                                                CCPP_LOOP_EXTENT in dims:
+                                                CCPP_HORIZONTAL_LOOP_EXTENT in dims:
                                             raise Exception(f"Invalid metadata for scheme {scheme_name}: " + \
                                                             f"horizontal dimension for {var_standard_name} is {var.dimensions}")
                                     # *DH
-- 
2.43.0


From 45605e31e829911007024cba0680fd57da4a5481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:41 +0000
Subject: [PATCH 66/80] fix: constituents of different schemes may have the
 same local name

---
 scripts/constituents.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/constituents.py b/scripts/constituents.py
index 3e1ffaa..73d308e 100644
--- a/scripts/constituents.py
+++ b/scripts/constituents.py
@@ -114,7 +114,10 @@ class ConstituentVarDict(VarDictionary):
             # end for
             var = source_var.clone({'dimensions' : newdims}, remove_intent=True,
                                    source_type=self.__constituent_type)
-            self.add_variable(var, self.__run_env)
+            # The local name is the one used by the first scheme, other
+            #   constituents may have the same one
+            self.add_variable(var, self.__run_env, gen_unique=True)
+            var = self[standard_name]
         return var
 
     @staticmethod
-- 
2.43.0


From f52eea854c14918d30aa9367bdcd1be69242408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:41 +0000
Subject: [PATCH 67/80] fix: constituents found by name get a local name which
 is unique in the group's call list

---
 scripts/suite_objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 5612267..3e05c10 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2557,7 +2557,8 @@ class Group(SuiteObject):
             if fvar.source.ptype == ConstituentVarDict.constitutent_source_type():
                 # We found this variable in the constituent dictionary,
                 #   add it to our call list
-                self.add_call_list_variable(fvar, exists_ok=True)
+                self.add_call_list_variable(fvar, exists_ok=True,
+                                            gen_unique=True)
             # end if
         # end if
         return fvar
-- 
2.43.0


From d590a4b574ac224826b984ace7f40f2ff22d072e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:15 +0000
Subject: [PATCH 68/80] fix: do not take names starting with a type keyword for
 declarations

In the executable part of a program, assignments to names such as
'type_flag' or 'real_part' were read as type definitions or declarations.
---
 scripts/fortran_tools/parse_fortran.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran.py b/scripts/fortran_tools/parse_fortran.py
index e15876c..c0103db 100644
--- a/scripts/fortran_tools/parse_fortran.py
+++ b/scripts/fortran_tools/parse_fortran.py
@@ -97,7 +97,7 @@ class Ftype(object):
     __intrinsic_types__ = [r"integer", r"real", r"logical",
                            r"double\s*precision", r"complex"]
 
-    __itype_re = re.compile(r"(?i)({})\s*(\([A-Za-z0-9,=_\s]+\))?".format(r"|".join(__intrinsic_types__)))
+    __itype_re = re.compile(r"(?i)({})\b\s*(\([A-Za-z0-9,=_\s]+\))?".format(r"|".join(__intrinsic_types__)))
     __kind_re = re.compile(r"(?i)kind\s*(\()?\s*([\'\"])?(.+?)([\'\"])?\s*(\))?")
 
     __attr_spec = ['allocatable', 'asynchronous', 'dimension', 'external',
@@ -372,7 +372,7 @@ class FtypeCharacter(Ftype):
     "character(len=15, kind=kind('b'))"
     """
 
-    char_re = re.compile(r"(?i)(character)(?:\s*(\([A-Za-z0-9,=*:\s\'\"()]+\)))?")
+    char_re = re.compile(r"(?i)(character)\b(?:\s*(\([A-Za-z0-9,=*:\s\'\"()]+\)))?")
     chartrail_re = re.compile(r"(?i)\s*[,:]|\s+[A-Z]")
     oldchar_re = re.compile(r"(?i)(character)\s*(\*)\s*([0-9]+|\(\s*(?:[:*]|\w+)\s*\))")
     oldchartrail_re = re.compile(r"(?i)\s*[,:]|\s*[A-Z]")
@@ -532,6 +532,7 @@ class FtypeTypeDecl(Ftype):
 
     __type_attr_spec__ = ['abstract', 'bind', 'extends', 'private', 'public']
 
+    __type_def_re__ = re.compile(r"(?i)type\b\s*(?:,|::|[A-Z])")
     __class_decl_re__ = re.compile(r"(?i)(class)\s*\(\s*([A-Z][A-Z0-9_]*)\s*\)")
 
     def __init__(self, line, context):
@@ -579,7 +580,7 @@ class FtypeTypeDecl(Ftype):
             else:
                 sline = line.strip()
             # end if
-            if sline.lower()[0:4] == 'type':
+            if cls.__type_def_re__.match(sline):
                 if '::' in sline:
                     elements = sline.split('::')
                     type_name = elements[1].strip()
-- 
2.43.0


From 58bae48bbe96b57bc0ddb57f728102d46dc43811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:36 +0000
Subject: [PATCH 69/80] fix: collect the routines of every program unit of a
 Fortran file

A file without a module (for instance a main program with host tables)
ended in an UnboundLocalError, and only the routines of the last of
several modules were returned.
---
 scripts/fortran_tools/parse_fortran_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index 016b739..f5b0b0d 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -973,6 +973,7 @@ def parse_module(pobj, statements, run_env):
 def parse_fortran_file(filename, run_env):
     """Parse a Fortran file and return all metadata tables found."""
     mtables = list()
+    additional_routines = list()
     pobj = read_file(filename, preproc_defs=run_env.preproc_defs,
                      logger=run_env.logger)
     pobj.reset_pos()
@@ -991,8 +992,9 @@ def parse_fortran_file(filename, run_env):
         elif _MODULE_RE.match(statement) is not None:
             # push statement back so parse_module can use it
             statements.insert(0, statement)
-            statements, ptables, additional_routines = parse_module(pobj, statements, run_env)
+            statements, ptables, routines = parse_module(pobj, statements, run_env)
             mtables.extend(ptables)
+            additional_routines.extend(routines)
         # End if
         if (statements is not None) and (len(statements) == 0):
             statements = read_statements(pobj)
-- 
2.43.0


From 54bc9fb35dfbfc3c4daf8a2aecbc961ae9af38d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:46 +0000
Subject: [PATCH 70/80] fix: end a module without CONTAINS at its END MODULE
 statement

The END MODULE statement was lost after the data section, so that the
next module of the file was read as part of the first one.
---
 scripts/fortran_tools/parse_fortran_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index f5b0b0d..0afc200 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -805,6 +805,8 @@ def parse_specification(pobj, statements, run_env, mod_name=None,
             if pmatch is not None:
                 # We never found a contains statement
                 inspec = False
+                # Put statement back so caller knows where we are
+                statements.insert(0, statement)
                 break
             elif asmatch is not None:
                 # Put table statement back to re-read
-- 
2.43.0


From 1d02c373c653e9867f0dd59d3f3de319870e22e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:54 +0000
Subject: [PATCH 71/80] fix: escape text in the HTML pages of metadata tables
 instead of formatting it again

---
 scripts/metadata_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/metadata_table.py b/scripts/metadata_table.py
index 915978a..a6d1270 100755
--- a/scripts/metadata_table.py
+++ b/scripts/metadata_table.py
@@ -126,6 +126,7 @@ Notes on the input format:
 
 # Python library imports
 import difflib
+import html
 import logging
 import os.path
 import re
@@ -1246,7 +1247,7 @@ class MetadataSection(ParseSource):
                     value = '(' + ', '.join(value) + ')'
                 elif value is None:
                     value = f"n/a"
-                row += f"<td>{value}</td>".format(value=value)
+                row += f"<td>{html.escape(str(value), quote=False)}</td>"
             row += f"</tr>\n"
             contents += row
         filename = os.path.join(outdir, self.title + '.html')
-- 
2.43.0


From 7b2e1a5c5dba7f6491c1f4718a9c299286e53658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:54 +0000
Subject: [PATCH 72/80] fix: escape special characters in the HTML and LaTeX
 variable tables

---
 scripts/common.py | 9 +++++----
 scripts/mkdoc.py  | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/scripts/common.py b/scripts/common.py
index f5ba7f1..9f02f28 100755
--- a/scripts/common.py
+++ b/scripts/common.py
@@ -166,12 +166,13 @@ def decode_container_as_dict(container):
         itemsdict[key] = value
     return itemsdict
 
+# Representation in LaTeX of the characters with a special meaning in LaTeX
+TEX_SPECIAL_CHARACTERS = str.maketrans({ '\\' : '\\textbackslash{}', '~' : '\\textasciitilde{}', '^' : '\\textasciicircum{}',
+                                         '%'  : '\\%', '_' : '\\_', '&' : '\\&', '#' : '\\#', '$' : '\\$', '{' : '\\{', '}' : '\\}' })
+
 def escape_tex(text):
     """Substitutes characters for generating LaTeX sources files from Python."""
-    return text.replace(
-                '%', '\%').replace(
-                '_', '\_').replace(
-                '&', '\&')
+    return text.translate(TEX_SPECIAL_CHARACTERS)
 
 def isstring(s):
     """Return true if a variable is a string"""
diff --git a/scripts/mkdoc.py b/scripts/mkdoc.py
index 018f88f..c3a5d5a 100755
--- a/scripts/mkdoc.py
+++ b/scripts/mkdoc.py
@@ -7,6 +7,7 @@
 # DH* TODO: create a Python module metadata.py with a class Metadata
 # and use this for ccpp_prebuild.py; create to_html and to_latex routines for it
 
+from html import escape
 import logging
 import os
 
@@ -50,14 +51,14 @@ def metadata_to_html(metadata, model, filename):
             # ... create html row ...
             line = '''<tr>
   <td bgcolor="{bgcolor}" align="left" >{v.standard_name}</td>
-  <td bgcolor="{bgcolor}" align="left" >{v.long_name}    </td>
+  <td bgcolor="{bgcolor}" align="left" >{long_name}    </td>
   <td bgcolor="{bgcolor}" align="left" >{v.units}        </td>
   <td bgcolor="{bgcolor}" align="right">{rank}           </td>
   <td bgcolor="{bgcolor}" align="left" >{v.type}         </td>
   <td bgcolor="{bgcolor}" align="left" >{v.kind}         </td>
   <td bgcolor="{bgcolor}" align="left" >{container}      </td>
   <td bgcolor="{bgcolor}" align="left" >{v.local_name}   </td>
-</tr>'''.format(v=var, rank=var.rank.count(':'), container = decode_container(var.container), bgcolor=shading[count])
+</tr>'''.format(v=var, long_name=escape(var.long_name, quote=False), rank=var.rank.count(':'), container = decode_container(var.container), bgcolor=shading[count])
             html += line
 
     # Footer
-- 
2.43.0


From d0a795f97e5c898b5b4fbbfd2a134064275c8aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:25 +0000
Subject: [PATCH 73/80] fix: do not share the local pointers of optional
 arguments between threads

Pointers declared with '=> null()' in a suite part are SAVEd, hence shared
by all threads which call the run phase.
---
 scripts/metavar.py       | 12 ++++++------
 scripts/suite_objects.py |  7 +++++++
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index 93bbffe..e41b3fc 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -1153,19 +1153,19 @@ class Var:
 
     @staticmethod
     def write_ptr_def(outfile, indent, name, kind, dimstr, vtype, extra_space=0):
-        """Write the definition line for local null pointer declaration to <outfile>."""
+        """Write the definition line for local pointer declaration to <outfile>.
+        No initialization here, it would imply the SAVE attribute and, thus,
+        a pointer shared by all threads."""
         comma = ', '
         if kind:
-            dstr = "{type}({kind}){cspace}pointer          :: {name}{dims}{cspace2} => null()"
+            dstr = "{type}({kind}){cspace}pointer          :: {name}{dims}"
             cspace = comma + ' '*(extra_space + 20 - len(vtype) - len(kind))
-            cspace2 = ' '*(20 -len(name) - len(dimstr))
         else:
-            dstr = "{type}{cspace}pointer          :: {name}{dims}{cspace2} => null()"
+            dstr = "{type}{cspace}pointer          :: {name}{dims}"
             cspace = comma + ' '*(extra_space + 22 - len(vtype))
-            cspace2 = ' '*(20 -len(name) - len(dimstr))
         # end if
         outfile.write(dstr.format(type=vtype, kind=kind, name=name, dims=dimstr,
-                                  cspace=cspace, cspace2=cspace2), indent)
+                                  cspace=cspace), indent)
 
     def is_ddt(self):
         """Return True iff <self> is a DDT type."""
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 3e05c10..4c75eaa 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2745,6 +2745,13 @@ class Group(SuiteObject):
                 outfile.write(action, indent+1)
             # end if
         # end for
+        # Make sure that the status of local pointers is defined
+        if pointer_var_set:
+            outfile.write('\n! Initialize local pointers', indent+1)
+        # end if
+        for (name, kind, dim, vtype) in pointer_var_set:
+            outfile.write(f'nullify({name})', indent+1)
+        # end for
         # Allocate local arrays
         outfile.write('\n! Allocate local arrays', indent+1)
         alloc_stmt = "allocate({}({}))"
-- 
2.43.0


From 7069e2a3d248292badd83ff92e4acffe595a92ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:25 +0000
Subject: [PATCH 74/80] fix: prebuild --clean removes the cmake snippet of the
 static API

---
 scripts/ccpp_prebuild.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/ccpp_prebuild.py b/scripts/ccpp_prebuild.py
index 87f9918..d45ace9 100755
--- a/scripts/ccpp_prebuild.py
+++ b/scripts/ccpp_prebuild.py
@@ -156,6 +156,7 @@ def clean_files(config, namespace):
         os.path.join(config['caps_dir'], 'ccpp_*_cap.F90'),
         os.path.join(config['static_api_dir'], static_api_file),
         config['static_api_sourcefile'],
+        config['static_api_cmakefile'],
         ]
     # Not very pythonic, but the easiest way w/o importing another Python module
     cmd = 'rm -vf {0}'.format(' '.join(files_to_remove))
-- 
2.43.0


From 4e89454e8b7d5a131cae6ec91bbb6531357cb79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:28 +0000
Subject: [PATCH 75/80] fix: read fixed-form Fortran continuation lines,
 comments and columns as the standard says

---
 scripts/fortran_tools/parse_fortran_file.py | 47 ++++++++++++++++++---
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/scripts/fortran_tools/parse_fortran_file.py b/scripts/fortran_tools/parse_fortran_file.py
index 0afc200..a095ceb 100644
--- a/scripts/fortran_tools/parse_fortran_file.py
+++ b/scripts/fortran_tools/parse_fortran_file.py
@@ -126,6 +126,28 @@ def read_statements(pobj, statements=None):
     # End while
     return statements
 
+########################################################################
+def fixed_form_line(line):
+    """Return fixed-format Fortran <line> without the text after the
+    statement field (i.e., after column 72). A comment line is kept but uses
+    the '!' comment character.
+    >>> fixed_form_line("C comment")
+    '! comment'
+    >>> fixed_form_line("      integer :: foo" + " "*52 + "FOO00010")
+    '      integer :: foo'
+    """
+    if line[0:1] in ['C', 'c', '*']:
+        fixed_line = '!' + line[1:]
+    elif ((line[0:1] == '#') or
+          ((line.lstrip()[0:1] == '!') and
+           (_FIXED_CONTINUE_RE.match(line) is None))):
+        # Preprocessor directive or comment
+        fixed_line = line
+    else:
+        fixed_line = line[0:72].rstrip()
+    # End if
+    return fixed_line
+
 ########################################################################
 def scan_fixed_line(line, in_single_char, in_double_char, context):
     """Scan a fixed-format FORTRAN line for continue indicators, continued
@@ -363,6 +385,9 @@ def read_file(filename, preproc_defs=None, logger=None):
         file_lines = file.readlines()
         for index, line in enumerate(file_lines):
             file_lines[index] = line.rstrip('\n').rstrip()
+            if fixed_form:
+                file_lines[index] = fixed_form_line(file_lines[index])
+            # End if
         # End for
     # End with
     # create a parse object and context for this file
@@ -375,9 +400,14 @@ def read_file(filename, preproc_defs=None, logger=None):
     curr_line, curr_line_num = pobj.curr_line()
     while curr_line is not None:
         # Skip empty lines and comment-only lines
+        # Note that any character can mark a fixed-form continuation line
         skip_line = False
+        fixed_cont = (fixed_form and
+                      (_FIXED_CONTINUE_RE.match(curr_line) is not None))
         if len(curr_line.strip()) == 0:
             skip_line = True
+        elif fixed_cont:
+            skip_line = False
         elif (fixed_form and
               (_FIXED_COMMENT_RE.match(curr_line) is not None)):
             skip_line = True
@@ -389,7 +419,8 @@ def read_file(filename, preproc_defs=None, logger=None):
             continue
         # End if
         # Handle preproc issues
-        if preproc_status.process_line(curr_line, preproc_defs, pobj, logger):
+        if ((not fixed_cont) and
+            preproc_status.process_line(curr_line, preproc_defs, pobj, logger)):
             pobj.write_line(curr_line_num, "")
             curr_line, curr_line_num = pobj.next_line()
             continue
@@ -409,7 +440,12 @@ def read_file(filename, preproc_defs=None, logger=None):
             cont_in_col, in_schar, in_dchar, comment_col = res
             continue_col = cont_in_col # No warning in fixed form
             cont_out_col = -1
-            if (comment_col < 0) and (continue_col < 0):
+            if comment_col >= 0:
+                # Remove any comment as this line might be continued
+                curr_line = curr_line[0:comment_col].rstrip()
+                pobj.write_line(curr_line_num, curr_line)
+            # End if
+            if continue_col < 0:
                 # Real statement, grab the line # in case is continued
                 prev_line_num = curr_line_num
                 prev_line = None
@@ -422,7 +458,7 @@ def read_file(filename, preproc_defs=None, logger=None):
         # If in a continuation context, move this line to previous
         if continue_col >= 0:
             if fixed_form and (prev_line is None):
-                prev_line = pobj.peek_line(prev_line_num)[0:72]
+                prev_line = pobj.peek_line(prev_line_num)[0:72].ljust(72)
             # End if
             if prev_line is None:
                 raise ParseInternalError("No prev_line to continue",
@@ -439,10 +475,11 @@ def read_file(filename, preproc_defs=None, logger=None):
             # End if
             prev_line = prev_line + curr_line[sindex:eindex]
             if fixed_form:
-                prev_line = prev_line.rstrip()
+                # The statement field always includes column 72
+                prev_line = prev_line + ' '*(72 - len(curr_line))
             # End if
             # Rewrite the file's lines
-            pobj.write_line(prev_line_num, prev_line)
+            pobj.write_line(prev_line_num, prev_line.rstrip())
             pobj.write_line(curr_line_num, "")
             if (not fixed_form) and (cont_out_col < 0):
                 # We are done with this line, reset prev_line
-- 
2.43.0


From 35973c0128de0d86491c32a9f9ef46bb943aae5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:38 +0000
Subject: [PATCH 76/80] fix: run a scheme without the vertical dimension of its
 variables once per level

The level was ignored if the group had the vertical dimension as a
variable, if several variables needed it or if the variable is held by
the suite, a variable with all levels was cut down to one, the extent of
the loop was not available in the group and an absent optional argument
was passed as a slice of an unassociated pointer.
---
 scripts/metavar.py       |  3 +-
 scripts/suite_objects.py | 62 ++++++++++++++++++++++++++--------------
 2 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/scripts/metavar.py b/scripts/metavar.py
index e41b3fc..13bcf9c 100755
--- a/scripts/metavar.py
+++ b/scripts/metavar.py
@@ -26,6 +26,7 @@ from parse_tools import ParseInternalError, ParseSyntaxError, CCPPError
 from parse_tools import FORTRAN_CONDITIONAL_REGEX_WORDS, FORTRAN_CONDITIONAL_REGEX
 from var_props import CCPP_LOOP_DIM_SUBSTS, VariableProperty, VarCompatObj
 from var_props import find_horizontal_dimension, find_vertical_dimension
+from var_props import is_vertical_dimension
 from var_props import standard_name_to_long_name, default_kind_val
 
 ##############################################################################
@@ -612,7 +613,7 @@ class Var:
                 dstdnames = dim.split(':')
                 add_dims = explicit_dims or (len(dstdnames) == 1)
                 dvar = None
-                if add_dims and loop_subst:
+                if add_dims and loop_subst and (not is_vertical_dimension(dim)):
                     for vdict in var_dicts:
                         dvar = vdict.find_loop_dim_match(dim)
                         if dvar is not None:
diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 4c75eaa..e189083 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -173,7 +173,8 @@ class CallList(VarDictionary):
                     vdims = var.call_dimstring(var_dicts=use_dicts,
                                                explicit_dims=need_dims,
                                                loop_subst=run_phase)
-                    if _BLANK_DIMS_RE.match(vdims) is None:
+                    # A local copy or pointer only has the data to be passed
+                    if (not subst) and (_BLANK_DIMS_RE.match(vdims) is None):
                         lname = lname + vdims
                     # end if
                 # end if
@@ -721,18 +722,13 @@ class SuiteObject(VarDictionary):
             vvmatch = VarDictionary.loop_var_match(have_dims[hvdim_index])
             if vvmatch:
                 vmatch_dims = ':'.join(vvmatch.required_stdnames)
-                # See if the missing vertical dimensions exist
+                # See if we are in a loop over the missing vertical dimension
                 missing_vert_dim = None
-                for mstdname in vvmatch.required_stdnames:
-                    mvdim = self.find_variable(standard_name=mstdname,
-                                               any_scope=True)
-                    if not mvdim:
-                        missing_vert_dim = vmatch_dims
-                        match = False # Should trigger vertical loop action
-                        reason = 'missing vertical dimension'
-                        break
-                    # end if
-                # end for
+                if not self.vert_dim_match(vvmatch):
+                    missing_vert_dim = vmatch_dims
+                    match = False # Should trigger vertical loop action
+                    reason = 'missing vertical dimension'
+                # end if
                 # While we have a missing vertical dimension which has been
                 # created, do NOT enter the substitution into have_dims.
                 # The supplied variable still has a vertical dimension.
@@ -897,8 +893,19 @@ class SuiteObject(VarDictionary):
             found_var = True
             new_vdims = dict_var.get_dimensions()
             if vdims:
-                perm = self.parent.match_dimensions(vdims, new_vdims)[4]
+                args = self.parent.match_dimensions(vdims, new_vdims)
+                missing_vert, perm = args[3:5]
                 self.check_permutation(var, perm)
+                vindex = find_vertical_dimension(new_vdims)[1]
+                if missing_vert:
+                    found_var = False
+                elif ((vindex >= 0) and
+                      (find_vertical_dimension(vdims)[1] < 0)):
+                    # Inside a vertical loop, pass the current level
+                    vmatch = VarDictionary.loop_var_match(new_vdims[vindex])
+                    new_vdims = list(new_vdims)
+                    new_vdims[vindex] = ':'.join(vmatch.required_stdnames)
+                # end if
             # end if
         else:
             # Check dimensions
@@ -924,7 +931,7 @@ class SuiteObject(VarDictionary):
                 raise CCPPError(errmsg)
             # end if
             # Add the variable to the parent call tree
-            if dict_dims == new_dict_dims:
+            if (dict_dims == new_dict_dims) and (len(dict_dims) == len(vdims)):
                 sdict = {}
             else:
                 sdict = {'dimensions':new_dict_dims}
@@ -1686,7 +1693,15 @@ class Scheme(SuiteObject):
             if trans_name:
                 lname = trans_name
             else:
-                lname = self.provided_variable(var, cldicts).get_prop_value('local_name')
+                pvar = self.provided_variable(var, cldicts)
+                lname = pvar.get_prop_value('local_name')
+                if var.get_rank() < pvar.get_rank():
+                    # Inside a vertical loop, use the current level
+                    cvar = self.call_list.find_variable(source_var=var,
+                                                        any_scope=False)
+                    lname += cvar.call_dimstring(var_dicts=cldicts,
+                                                 loop_subst=True)
+                # end if
             # end if
             outfile.write(f"if ({conditional}) then", indent)
             outfile.write(f"{ptr_name} => {lname}", indent+1)
@@ -2023,10 +2038,15 @@ class VerticalLoop(SuiteObject):
         # If not found, check the suite level
         if local_dim is None:
             local_dim = group.suite.find_variable(standard_name=dim_name)
-        # end if
-        if local_dim is None:
-            emsg = 'No variable found for vertical loop dimension {}'
-            raise ParseInternalError(emsg.format(self._dim_name))
+            if local_dim is None:
+                emsg = 'No variable found for vertical loop dimension {}'
+                raise ParseInternalError(emsg.format(self._dim_name))
+            # end if
+            # The group needs this variable, use its name in the group
+            group.add_call_list_variable(local_dim, exists_ok=True,
+                                         gen_unique=True)
+            local_dim = group.call_list.find_variable(standard_name=dim_name,
+                                                      any_scope=False)
         # end if
         self._local_dim_name = local_dim.get_prop_value('local_name')
         emsg = "VerticalLoop local name for '{}'".format(self.name)
@@ -2052,7 +2072,7 @@ class VerticalLoop(SuiteObject):
         for item in self.parts:
             item.write(outfile, errcode, errmsg, indent+1)
         # end for
-        outfile.write('end do', 2)
+        outfile.write('end do', indent)
 
     @property
     def dimension_name(self):
@@ -2467,7 +2487,7 @@ class Group(SuiteObject):
         Return the name of the pointer."""
         base_name = var.get_prop_value('local_name') + '_ptr'
         kind = target.get_prop_value('kind')
-        rank = target.get_rank()
+        rank = var.get_rank()
         if var.is_ddt():
             vtype = 'type'
         else:
-- 
2.43.0


From 2da310c877bf3c77554815e6b99654203476f0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:38 +0000
Subject: [PATCH 77/80] fix: reject schemes whose vertical loop cannot be
 generated

A vertical loop with a variable which needs a conversion or over both
vertical dimensions gave code which does not compile.
---
 scripts/suite_objects.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index e189083..6973ab0 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -973,6 +973,13 @@ class SuiteObject(VarDictionary):
                      (0 < len(vdims) == len(dict_dims) - 1) and
                      (find_vertical_dimension(vdims)[1] < 0) and
                      (find_vertical_dimension(dict_dims)[1] >= 0))
+            if vloop and (compat_obj.has_unit_transforms or
+                          compat_obj.has_kind_transforms or
+                          compat_obj.has_vert_transforms):
+                emsg = "{}{} cannot be converted in a vertical loop"
+                raise CCPPError(emsg.format(vstdname,
+                                            context_string(var.context)))
+            # end if
             if (not compat_obj.compat) and (not vloop):
                 emsg = "Incompatible definitions of {}, '{}'{} and '{}'{}: {}"
                 raise CCPPError(emsg.format(vstdname,
@@ -1362,6 +1369,12 @@ class Scheme(SuiteObject):
 
         # end for
         if self.needs_vertical is not None:
+            if isinstance(self.parent, VerticalLoop):
+                emsg = "{} needs a loop over both {} and {}"
+                raise CCPPError(emsg.format(self.subroutine_name,
+                                            self.parent.name,
+                                            self.needs_vertical))
+            # end if
             self.parent.add_part(self, replace=True) # Should add a vloop
             if isinstance(self.parent, VerticalLoop):
                 # Restart the loop analysis
-- 
2.43.0


From 1080230c534309cdbd60932f35451dfe1396f8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:46 +0000
Subject: [PATCH 78/80] fix: accept default values of character variables with
 a length or an underscore

A character variable has its length in the kind property, which is no part
of a literal, and an underscore in a literal only separates a kind when it
comes before the opening delimiter. Kinds are compared without regard to
case.
---
 scripts/parse_tools/parse_checkers.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/scripts/parse_tools/parse_checkers.py b/scripts/parse_tools/parse_checkers.py
index b4dd436..fc6f68d 100755
--- a/scripts/parse_tools/parse_checkers.py
+++ b/scripts/parse_tools/parse_checkers.py
@@ -227,6 +227,7 @@ FORTRAN_FUNCTION_REF_RE = re.compile(FORTRAN_FUNCTION_REF)
 FORTRAN_INTRINSIC_TYPES = ["integer", "real", "logical", "complex",
                            "double precision", "character"]
 FORTRAN_DP_RE = re.compile(r"(?i)double\s*precision")
+FORTRAN_CHAR_RE = re.compile(r"(?:(\w+)_)?(['\"].*)$")
 FORTRAN_TYPE_RE = re.compile(r"(?i)type\s*\(\s*("+FORTRAN_ID+r")\s*\)")
 
 _REGISTERED_FORTRAN_DDT_NAMES = []
@@ -670,16 +671,14 @@ def check_fortran_literal(value, typestr, kind):
         else:
             valid = False
     elif valid:
-        vparts = value.strip().split('_')
         if vtype == 'character':
-            if len(vparts) > 1:
-                val = vparts[-1]
-                vkind = '_'.join(vparts[0:-1])
-            else:
-                val = vparts[0]
-                vkind = ''
-            # end if
+            # A kind can only come before the opening delimiter
+            match = FORTRAN_CHAR_RE.match(value.strip())
+            val = match.group(2) if match else ''
+            vkind = (match.group(1) or '') if match else ''
+            valid = match is not None
         else:
+            vparts = value.strip().split('_')
             val = vparts[0]
             if len(vparts) > 1:
                 vkind = '_'.join(vparts[1:])
@@ -687,7 +686,7 @@ def check_fortran_literal(value, typestr, kind):
                 vkind = ''
             # end if
         # end if
-        if vkind != kind.lower():
+        if vkind.lower() != kind.lower():
             valid = False
         # end if, kind is okay, check value
         if valid and (vtype == 'integer'):
@@ -770,6 +769,10 @@ def check_default_value(test_val, prop_dict, error):
         else:
             vkind = ''
         # end if
+        if (var_type == 'character') and re.match(r"len\s*=", vkind):
+            # A length is not part of a literal
+            vkind = ''
+        # end if
         if not check_fortran_literal(test_val, var_type, vkind):
             valid = None
             if error:
-- 
2.43.0


From f0d30e3c6a3356b38a956b82ece6cecc6611086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:23 +0000
Subject: [PATCH 79/80] fix: give variables which only have a default value
 that value

---
 scripts/suite_objects.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 6973ab0..282f61c 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -2596,6 +2596,16 @@ class Group(SuiteObject):
         # end if
         return fvar
 
+    @staticmethod
+    def write_default_value(var, outfile, indent):
+        """Set <var> to its default value if it has one"""
+        default_value = var.get_prop_value('default_value')
+        if default_value:
+            lname = var.get_prop_value('local_name')
+            outfile.write(f"{lname} = {default_value}", indent)
+        # end if
+    # end def
+
     def write(self, outfile, host_arglist, indent, const_mod,
               suite_vars=None, allocate=False, deallocate=False):
         """Write code for this subroutine (Group), including contents,
@@ -2800,20 +2810,30 @@ class Group(SuiteObject):
             alloc_str = self.allocate_dim_str(dims, var.context)
             outfile.write(alloc_stmt.format(lname, alloc_str), indent+1)
         # end for
+        # Set local variables to their default value (if any)
+        for var in self.declarations():
+            lname = var.get_prop_value('local_name')
+            if ((lname in subpart_scalar_vars) or
+                (lname in subpart_allocate_vars) or
+                (lname in subpart_optional_vars)):
+                self.write_default_value(var, outfile, indent+1)
+            # end if (no else, this variable is not used)
+        # end for
         # Allocate suite vars
         if allocate:
             outfile.write('\n! Allocate suite_vars', indent+1)
             for svar in suite_vars.variable_list():
-                dims = svar.get_dimensions()
-                if dims:
-                    timestep_var = svar.get_prop_value('persistence')
-                    if group_type == timestep_var:
+                timestep_var = svar.get_prop_value('persistence')
+                if group_type == timestep_var:
+                    dims = svar.get_dimensions()
+                    if dims: # do not allocate scalars
                         alloc_str = self.allocate_dim_str(dims, svar.context)
                         lname = svar.get_prop_value('local_name')
                         outfile.write(alloc_stmt.format(lname, alloc_str),
                                       indent+1)
-                    # end if (do not allocate in this phase)
-                # end if dims (do not allocate scalars)
+                    # end if
+                    self.write_default_value(svar, outfile, indent+1)
+                # end if (do not allocate in this phase)
             # end for
         # end if
         # Write the scheme and subcycle calls
-- 
2.43.0


From 0adc3bac88fc926ade9b5a65827ce1ce906cb1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:55 +0000
Subject: [PATCH 80/80] fix: convert the kinds of integer and logical variables

---
 scripts/suite_objects.py |  3 ++-
 scripts/var_props.py     | 13 +++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/scripts/suite_objects.py b/scripts/suite_objects.py
index 282f61c..f6d9505 100755
--- a/scripts/suite_objects.py
+++ b/scripts/suite_objects.py
@@ -941,7 +941,8 @@ class SuiteObject(VarDictionary):
             if (var.get_prop_value('units') != dict_var.get_prop_value('units')):
                 sdict['units'] = dict_var.get_prop_value('units')
             # end if
-            if ((var.get_prop_value('type').lower() == 'real') and
+            if ((var.get_prop_value('type').lower() in
+                 ['real', 'integer', 'logical']) and
                 (var.get_prop_value('kind') != dict_var.get_prop_value('kind'))):
                 sdict['kind'] = dict_var.get_prop_value('kind')
             # end if
diff --git a/scripts/var_props.py b/scripts/var_props.py
index 262e103..03ecf28 100755
--- a/scripts/var_props.py
+++ b/scripts/var_props.py
@@ -874,6 +874,7 @@ class VarCompatObj:
         self.__stdname = var1_stdname
         self.__v1_context = v1_context
         self.__v2_context = v2_context
+        self.__type = var1_type.lower()
         self.__v1_kind = var1_kind
         self.__v2_kind = var2_kind
         self.v1_units = var1_units
@@ -1029,7 +1030,7 @@ class VarCompatObj:
 
         if self.has_kind_transforms:
             kind = self.__kind_transforms[1]
-            rhs_term = f"real({rhs_term}, {kind})"
+            rhs_term = self._kind_convstr(rhs_term, kind)
         else:
             kind = ''
         # end if
@@ -1074,7 +1075,7 @@ class VarCompatObj:
 
         if self.has_kind_transforms:
             kind = self.__kind_transforms[0]
-            rhs_term = f"real({rhs_term}, {kind})"
+            rhs_term = self._kind_convstr(rhs_term, kind)
         else:
             kind = ''
         # end if
@@ -1088,6 +1089,14 @@ class VarCompatObj:
         # end if
         return f"{lhs_term} = {rhs_term}"
 
+    def _kind_convstr(self, term, kind):
+        """Return the Fortran expression which converts <term> to <kind>."""
+        func = {'integer':'int', 'logical':'logical'}.get(self.__type, 'real')
+        if kind:
+            return f"{func}({term}, {kind})"
+        # end if (no else, <kind> is the default kind)
+        return f"{func}({term})"
+
     def _get_kind_convstrs(self, var1_kind, var2_kind, run_env):
         """Attempt to determine if no transformation is required (i.e., if
            <var1_kind> and <var2_kind> will be the same at runtime. If so,
-- 
2.43.0

