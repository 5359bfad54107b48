From 19aa6c10e9d9969c4cc38a6ef36d8216fd29abf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 01/30] fix: give template instances distinct names for nested
 arguments and bit widths

---
 .../src/internal/compiler/template_instantiation.rs         | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
index a429423..4988620 100644
--- a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
@@ -74,8 +74,12 @@ pub fn instantiate_type(
 
 fn generate_instantiated_name(type_reference: &TypeReference) -> String {
     let mut new_name = type_reference.name.clone();
+    if type_reference.bits != 0 {
+        // Bit fields of different widths are different types.
+        new_name += &type_reference.bits.to_string();
+    }
     for template_arg in &type_reference.template_arguments {
-        new_name += template_arg.name.as_str();
+        new_name += generate_instantiated_name(template_arg).as_str();
     }
     new_name
 }
-- 
2.43.0


From a4e6117b0bf03099e59b2e412c5a2599e4738350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:41 +0000
Subject: [PATCH 02/30] fix: evaluate and generate schema expressions with
 zserio semantics

---
 .../ast/evaluate_mixing_native_types.rs       | 135 +-------
 .../src/internal/ast/expression.rs            | 153 +++++----
 .../zserio-rs-build/src/internal/generator.rs |   1 -
 .../src/internal/generator/casts.rs           |  29 --
 .../src/internal/generator/decode.rs          |  70 +---
 .../src/internal/generator/encode.rs          |  18 +-
 .../src/internal/generator/expression.rs      | 317 +++++++++---------
 .../src/internal/generator/function.rs        |  39 +--
 .../src/internal/generator/pass_parameters.rs |  27 +-
 .../src/internal/generator/types.rs           |   3 +
 .../src/internal/generator/zconst.rs          |  13 +-
 .../zserio-rs-build/src/internal/visitor.rs   |  61 +++-
 12 files changed, 393 insertions(+), 473 deletions(-)
 delete mode 100644 crates/zserio-rs-build/src/internal/generator/casts.rs

diff --git a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
index ddd2e72..0a31d96 100644
--- a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
+++ b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
@@ -1,145 +1,30 @@
 use crate::internal::ast::type_reference::TypeReference;
 
-fn compare_native_types(type1: &TypeReference, type2: &TypeReference) -> bool {
-    type1.name == type2.name && type1.bits == type2.bits
-}
-
+/// Returns the type of the result of a float operator. Operands that are numerals do not have a
+/// type. All other operands are promoted to double precision.
 pub fn evaluate_mixing_float_types(
     type1: &Option<TypeReference>,
     type2: &Option<TypeReference>,
 ) -> Option<TypeReference> {
     match (type1, type2) {
-        (Some(t1), Some(t2)) => {
-            // If both types are set, check if they are the same type.
-            if compare_native_types(t1, t2) {
-                return type1.clone();
-            }
-            // Choose the float type with the highest rank.
-            for float_type in ["float64", "float32", "float16"] {
-                if t1.name == float_type || t2.name == float_type {
-                    return Some(TypeReference::new_native_type(float_type));
-                }
-            }
-            panic!("unknown float types");
-        }
-        (Some(_), None) => type1.clone(),
-        (None, Some(_)) => type2.clone(),
         (None, None) => None,
+        _ => Some(TypeReference::new_native_type("float64")),
     }
 }
 
-fn get_integer_rank(integer_type: &TypeReference) -> u8 {
-    // if the bit length is dynamic, always assume 64bits
-    if integer_type.length_expression.is_some() {
-        return 64;
-    }
-    if integer_type.bits != 0 {
-        return integer_type.bits;
-    }
-    match integer_type.name.as_str() {
-        "int8" => 8,
-        "int16" => 16,
-        "int32" => 32,
-        "int64" => 64,
-        "varint16" => 15,
-        "varint32" => 29,
-        "varint64" => 57,
-        "varint" => 64,
-        "uint8" => 8,
-        "uint16" => 16,
-        "uint32" => 32,
-        "varuint16" => 15,
-        "varuint32" => 29,
-        "varuint64" => 57,
-        "varsize" => 31,
-        "varuint" => 64,
-        _ => panic!("unexpected integer type {:?}", integer_type),
-    }
-}
-
-pub fn is_signed(int_type_name: &str) -> bool {
-    match int_type_name {
-        "int8" => true,
-        "int16" => true,
-        "int32" => true,
-        "int64" => true,
-        "varint16" => true,
-        "varint32" => true,
-        "varint64" => true,
-        "varint" => true,
-        "uint8" => false,
-        "uint16" => false,
-        "uint32" => false,
-        "varuint16" => false,
-        "varuint32" => false,
-        "varuint64" => false,
-        "varsize" => false,
-        "varuint" => false,
-        _ => panic!("unexpected integer type {:?}", int_type_name),
-    }
-}
-
-pub fn convert_to_unsigned(int_type_name: &str) -> String {
-    match int_type_name {
-        "int8" => "uint8".into(),
-        "int16" => "uint16".into(),
-        "int32" => "uint32".into(),
-        "int64" => "uint64".into(),
-        "varint16" => "varuint16".into(),
-        "varint32" => "varuint32".into(),
-        "varint64" => "varuint64".into(),
-        "varint" => "varuint".into(),
-        _ => panic!("unexpected signed integer type {:?}", int_type_name),
-    }
-}
+/// The name of the internal type that integer operators are evaluated in. It holds the exact
+/// result of every operator for operands of any zserio integer type.
+pub const WIDE_INTEGER_TYPE: &str = "int128";
 
+/// Returns the type of the result of an integer operator. Operands that are numerals do not
+/// have a type. All other operands are promoted to the wide integer type, so that neither mixing
+/// signed and unsigned types nor the range of the operand types changes the result.
 pub fn evaluate_mixing_integer_types(
     type1: &Option<TypeReference>,
     type2: &Option<TypeReference>,
 ) -> Option<TypeReference> {
-    // For now, we use the same logic as C++ when mixing integer types:
-    // Mixing signed/unsigned values of the same type (in the sequence of int16, int32, int64),
-    // the unsigned type will win.
-    // Mixing different ranks result in the higher rank being used.
     match (type1, type2) {
-        (Some(t1), Some(t2)) => {
-            // If both types are set, check if they are the same type.
-            if compare_native_types(t1, t2) {
-                return type1.clone();
-            }
-
-            // Check if there is a mix in signed/unsigned. If yes, the final
-            // type will be a unsigned type (like C++, unsigned wins).
-            let t1_is_signed = is_signed(t1.name.as_str());
-            let t2_is_signed = is_signed(t2.name.as_str());
-            let result_is_signed = t1_is_signed && t2_is_signed;
-
-            // Pick the higher rank.
-            let t1_rank = get_integer_rank(t1);
-            let t2_rank = get_integer_rank(t2);
-
-            if t1_rank > t2_rank {
-                if t1_is_signed == result_is_signed {
-                    // type 1 wins
-                    return Some(t1.clone());
-                }
-                // t1 rank wins, but t2 sign wins
-                let mut result_type = t1.clone();
-                result_type.name = convert_to_unsigned(result_type.name.as_str());
-                return Some(result_type);
-            }
-            if t2_is_signed == result_is_signed {
-                // type 2 wins
-                return Some(t2.clone());
-            }
-            // t2 rank wins, but t1 sign wins
-            let mut result_type = t2.clone();
-            result_type.name = convert_to_unsigned(result_type.name.as_str());
-            Some(result_type)
-        }
-        // Handle cases such as "u16Var + 12"
-        (Some(_), None) => type1.clone(),
-        (None, Some(_)) => type2.clone(),
         (None, None) => None,
+        _ => Some(TypeReference::new_native_type(WIDE_INTEGER_TYPE)),
     }
 }
diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 49933ba..a7cb8bb 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -27,7 +27,7 @@ pub enum ExpressionFlag {
 
 #[derive(Clone, Debug)]
 pub enum ExpressionType {
-    Integer(i32),
+    Integer(i128),
     Float(f64),
     String(String),
     Bool(bool),
@@ -157,11 +157,11 @@ impl Expression {
     fn evaluate_array_element(&mut self, _scope: &mut ModelScope) {
         match &self.operand1 {
             Some(op1) => {
-                match &op1.result_type {
-                    ExpressionType::Compound => {}
-                    ExpressionType::Integer(_) => {} // for @index expressions in offset
-                    _ => panic!("unexpected array expression index type"),
-                }
+                // The type of an array field is the type of its elements.
+                self.result_type.clone_from(&op1.result_type);
+                self.native_type.clone_from(&op1.native_type);
+                self.symbol.clone_from(&op1.symbol);
+                self.fully_resolved = false;
             }
             _ => panic!("array element requires an operand to be set"),
         }
@@ -193,7 +193,8 @@ impl Expression {
                 ExpressionType::Enum(z_enum) => {
                     for z_enum_field in &z_enum.as_ref().borrow().items {
                         if z_enum_field.name == op2.text {
-                            self.result_type = ExpressionType::Integer(0);
+                            self.result_type = ExpressionType::Enum(z_enum.clone());
+                            self.fully_resolved = false;
                             return;
                         }
                     }
@@ -215,7 +216,7 @@ impl Expression {
                 ExpressionType::BitMask(z_bitmask) => {
                     for bitmask_value in &z_bitmask.as_ref().borrow().values {
                         if bitmask_value.name == op2.text {
-                            self.result_type = ExpressionType::Integer(0);
+                            self.result_type = ExpressionType::BitMask(z_bitmask.clone());
                             self.fully_resolved = false;
                             return;
                         }
@@ -289,8 +290,9 @@ impl Expression {
     fn evaluate_isset_expression(&mut self) {
         match (&self.operand1, &self.operand2) {
             (Some(op1), Some(op2)) => match (&op1.result_type, &op2.result_type) {
-                (ExpressionType::BitMask(_), ExpressionType::Integer(_)) => {
+                (ExpressionType::BitMask(_), ExpressionType::BitMask(_)) => {
                     self.result_type = ExpressionType::Bool(false);
+                    self.fully_resolved = false;
                 }
                 _ => panic!(
                     "the isset(bitmask, value_to_check) expression requires two bitmask parameters"
@@ -323,7 +325,7 @@ impl Expression {
         match &self.operand1 {
             Some(op1) => match op1.result_type {
                 ExpressionType::Integer(value) => {
-                    self.result_type = ExpressionType::Integer(numbits(value) as i32);
+                    self.result_type = ExpressionType::Integer(numbits(value) as i128);
                     self.fully_resolved = op1.fully_resolved;
                     self.native_type = Some(TypeReference::new_native_type("varsize"));
                 }
@@ -342,12 +344,20 @@ impl Expression {
                 match op1.result_type {
                     ExpressionType::Integer(value) => match self.expression_type {
                         PLUS => self.result_type = ExpressionType::Integer(value),
-                        MINUS => self.result_type = ExpressionType::Integer(-value),
+                        MINUS => {
+                            self.native_type =
+                                evaluate_mixing_integer_types(&op1.native_type, &op1.native_type);
+                            self.result_type = ExpressionType::Integer(-value)
+                        }
                         _ => panic!("unexpected unary integer expression"),
                     },
                     ExpressionType::Float(value) => match self.expression_type {
                         PLUS => self.result_type = ExpressionType::Float(value),
-                        MINUS => self.result_type = ExpressionType::Float(-value),
+                        MINUS => {
+                            self.native_type =
+                                evaluate_mixing_float_types(&op1.native_type, &op1.native_type);
+                            self.result_type = ExpressionType::Float(-value)
+                        }
                         _ => panic!("unexpected unary float expression"),
                     },
                     _ => {
@@ -359,14 +369,7 @@ impl Expression {
         }
     }
 
-    fn evaluate_integer_comparison_expression(&mut self, mut value1: i32, mut value2: i32) {
-        if !self.operand1.as_ref().unwrap().fully_resolved {
-            value1 = 1;
-        }
-        if !self.operand2.as_ref().unwrap().fully_resolved {
-            value2 = 1;
-        }
-
+    fn evaluate_integer_comparison_expression(&mut self, value1: i128, value2: i128) {
         self.result_type = ExpressionType::Bool(match self.expression_type {
             EQ => value1 == value2,
             GE => value1 >= value2,
@@ -387,9 +390,6 @@ impl Expression {
                     (ExpressionType::Integer(value1), ExpressionType::Integer(value2)) => {
                         self.evaluate_integer_comparison_expression(*value1, *value2);
                     }
-                    (ExpressionType::BitMask(_), ExpressionType::Integer(value2)) => {
-                        self.evaluate_integer_comparison_expression(1, *value2);
-                    }
                     (ExpressionType::Float(value1), ExpressionType::Float(value2)) => {
                         self.result_type = ExpressionType::Bool(match self.expression_type {
                             EQ => value1 == value2,
@@ -452,25 +452,21 @@ impl Expression {
         match (&self.operand1, &self.operand2) {
             (Some(op1), Some(op2)) => match (&op1.result_type, &op2.result_type) {
                 (ExpressionType::Integer(value1), ExpressionType::Integer(value2)) => {
-                    self.native_type =
-                        evaluate_mixing_integer_types(&op1.native_type, &op2.native_type);
-                    let mut v1 = *value1;
-                    let mut v2 = *value2;
-                    if !op1.fully_resolved {
-                        v1 = 1;
-                    }
-                    if !op2.fully_resolved {
-                        v2 = 1;
-                    }
                     let result = match self.expression_type {
-                        PLUS => v1 + v2,
-                        MINUS => v1 - v2,
-                        MULTIPLY => v1 * v2,
-                        DIVIDE => v1 / v2,
-                        MODULO => v1 % v2,
+                        // The operand values are only known if they are fully resolved.
+                        _ if !self.fully_resolved => Some(0),
+                        PLUS => value1.checked_add(*value2),
+                        MINUS => value1.checked_sub(*value2),
+                        MULTIPLY => value1.checked_mul(*value2),
+                        DIVIDE => value1.checked_div(*value2),
+                        MODULO => value1.checked_rem(*value2),
                         _ => panic!("unexpected integer arithmetic expression"),
                     };
-                    self.result_type = ExpressionType::Integer(result);
+                    self.native_type =
+                        evaluate_mixing_integer_types(&op1.native_type, &op2.native_type);
+                    self.result_type = ExpressionType::Integer(
+                        result.expect("integer arithmetic expression is not defined"),
+                    );
                 }
                 // Float arithmetic expressions can be mixed with integer types.
                 // If one operand is a float type, the result will also be a float type.
@@ -526,7 +522,8 @@ impl Expression {
             Some(op1) => match op1.result_type {
                 ExpressionType::Integer(value) => {
                     self.result_type = ExpressionType::Integer(!value);
-                    self.native_type.clone_from(&op1.native_type);
+                    self.native_type =
+                        evaluate_mixing_integer_types(&op1.native_type, &op1.native_type);
                 }
                 _ => {
                     panic!("bitwise negation expression can only be applied to integer expressions")
@@ -541,20 +538,29 @@ impl Expression {
             (Some(op1), Some(op2)) => match (&op1.result_type, &op2.result_type) {
                 (ExpressionType::Integer(value1), ExpressionType::Integer(value2)) => {
                     let result = match self.expression_type {
+                        // The operand values are only known if they are fully resolved.
+                        _ if !self.fully_resolved => 0,
                         AND => value1 & value2,
                         OR => value1 | value2,
                         XOR => value1 ^ value2,
-                        LSHIFT => value1 << value2,
-                        RSHIFT => value1 >> value2,
+                        LSHIFT => u32::try_from(*value2)
+                            .ok()
+                            .filter(|shift| *shift < 64)
+                            .and_then(|shift| value1.checked_mul(1i128 << shift))
+                            .expect("left shift is not defined"),
+                        RSHIFT => u32::try_from(*value2)
+                            .ok()
+                            .and_then(|shift| value1.checked_shr(shift))
+                            .expect("right shift is not defined"),
                         _ => panic!("unexpected bitwise expression"),
                     };
+                    self.native_type =
+                        evaluate_mixing_integer_types(&op1.native_type, &op2.native_type);
                     self.result_type = ExpressionType::Integer(result);
                 }
-                (ExpressionType::BitMask(_), ExpressionType::Integer(_))
-                | (ExpressionType::Integer(_), ExpressionType::BitMask(_))
-                | (ExpressionType::BitMask(_), ExpressionType::BitMask(_)) => {
+                (ExpressionType::BitMask(z_bitmask), ExpressionType::BitMask(_)) => {
                     // For bitmasks, we won't evaluate the values yet.
-                    self.result_type = ExpressionType::Integer(0);
+                    self.result_type = ExpressionType::BitMask(z_bitmask.clone());
                     self.fully_resolved = false;
                 }
                 _ => {
@@ -586,17 +592,20 @@ impl Expression {
     fn evaluate_ternary_expression(&mut self) {
         match self.operand1.as_ref().unwrap().result_type {
             ExpressionType::Bool(condition) => {
-                if condition {
-                    let op2 = self.operand2.as_ref().unwrap();
-                    self.result_type.clone_from(&op2.result_type);
-                    self.symbol.clone_from(&op2.symbol);
-                    self.fully_resolved = op2.fully_resolved;
-                } else {
-                    let op3 = self.operand3.as_ref().unwrap();
-                    self.result_type.clone_from(&op3.result_type);
-                    self.symbol.clone_from(&op3.symbol);
-                    self.fully_resolved = op3.fully_resolved;
-                }
+                let op2 = self.operand2.as_ref().unwrap();
+                let op3 = self.operand3.as_ref().unwrap();
+                let taken = if condition { op2 } else { op3 };
+                self.result_type.clone_from(&taken.result_type);
+                self.symbol.clone_from(&taken.symbol);
+                self.native_type = match (&op2.result_type, &op3.result_type) {
+                    (ExpressionType::Integer(_), ExpressionType::Integer(_)) => {
+                        evaluate_mixing_integer_types(&op2.native_type, &op3.native_type)
+                    }
+                    (ExpressionType::Float(_), ExpressionType::Float(_)) => {
+                        evaluate_mixing_float_types(&op2.native_type, &op3.native_type)
+                    }
+                    _ => taken.native_type.clone(),
+                };
             }
             _ => panic!("the first operand in a ternary expression must have a boolean type, but it has {:?}", self.operand1.as_ref().unwrap()),
         }
@@ -604,6 +613,7 @@ impl Expression {
 
     fn evaluate_index_expression(&mut self) {
         self.result_type = ExpressionType::Integer(0);
+        self.native_type = Some(TypeReference::new_native_type("varsize"));
         self.fully_resolved = false;
     }
 
@@ -619,6 +629,35 @@ impl Expression {
         self.symbol = Option::from(symbol_reference.clone());
         (self.result_type, self.native_type) = symbol_to_expression_type(&symbol_reference, scope);
         self.fully_resolved = false;
+
+        if let Symbol::Const(z_const) = &symbol_reference.symbol {
+            // The value of a constant is known at compile time. Its expression has to be
+            // evaluated in the scope of the package that declares the constant.
+            let z_const = z_const.as_ref().borrow();
+            let mut value_expression = z_const
+                .value_expression
+                .try_borrow_mut()
+                .unwrap_or_else(|_| panic!("cyclic definition of constant {}", z_const.name));
+            scope.scope_stack.push(ScopeLocation {
+                package: symbol_reference.package.clone(),
+                import_symbol: None,
+                symbol_name: Option::from(z_const.name.clone()),
+            });
+            value_expression.evaluate(scope);
+            scope.scope_stack.pop();
+            if value_expression.fully_resolved {
+                match (&self.result_type, &value_expression.result_type) {
+                    (ExpressionType::Integer(_), ExpressionType::Integer(_))
+                    | (ExpressionType::Float(_), ExpressionType::Float(_))
+                    | (ExpressionType::Bool(_), ExpressionType::Bool(_))
+                    | (ExpressionType::String(_), ExpressionType::String(_)) => {
+                        self.result_type.clone_from(&value_expression.result_type);
+                        self.fully_resolved = true;
+                    }
+                    _ => (),
+                }
+            }
+        }
     }
 }
 
diff --git a/crates/zserio-rs-build/src/internal/generator.rs b/crates/zserio-rs-build/src/internal/generator.rs
index 0bda854..be638ee 100644
--- a/crates/zserio-rs-build/src/internal/generator.rs
+++ b/crates/zserio-rs-build/src/internal/generator.rs
@@ -1,6 +1,5 @@
 mod array;
 pub mod bitsize;
-pub mod casts;
 pub mod decode;
 pub mod encode;
 pub mod expression;
diff --git a/crates/zserio-rs-build/src/internal/generator/casts.rs b/crates/zserio-rs-build/src/internal/generator/casts.rs
deleted file mode 100644
index d13505c..0000000
--- a/crates/zserio-rs-build/src/internal/generator/casts.rs
+++ /dev/null
@@ -1,29 +0,0 @@
-use crate::internal::ast::expression::{Expression, ExpressionType};
-use crate::internal::ast::type_reference::TypeReference;
-use crate::internal::generator::types::TypeGenerator;
-
-pub fn requires_cast(
-    target_type: &TypeReference,
-    other_type: &TypeReference,
-    type_generator: &mut TypeGenerator,
-) -> bool {
-    let other_rust_type = type_generator.ztype_to_rust_type(other_type);
-    let target_rust_type = type_generator.ztype_to_rust_type(target_type);
-    other_rust_type != target_rust_type
-}
-
-pub fn expression_requires_cast(
-    target_type: &TypeReference,
-    type_generator: &mut TypeGenerator,
-    expression: &Expression,
-) -> bool {
-    match &expression.result_type {
-        ExpressionType::Integer(_) | ExpressionType::BitMask(_) | ExpressionType::Float(_) => {
-            match &expression.native_type {
-                Some(native_type) => requires_cast(target_type, native_type, type_generator),
-                None => false,
-            }
-        }
-        _ => false,
-    }
-}
diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index a74477d..473e0f7 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -1,11 +1,10 @@
 use crate::internal::compiler::fundamental_type::FundamentalZserioTypeReference;
 use crate::internal::compiler::symbol_scope::ModelScope;
-use crate::internal::generator::casts::expression_requires_cast;
 use crate::internal::generator::expression::{generate_boolean_expression, generate_expression};
 use crate::internal::generator::index_offsets::extract_indexed_offset_expression;
 use crate::internal::generator::packed_contexts::FieldDetails;
 use crate::internal::generator::pass_parameters::{
-    does_expression_contains_index_operator, get_type_parameter,
+    does_expression_contains_index_operator, generate_type_argument, get_type_parameter,
 };
 use crate::internal::generator::types::TypeGenerator;
 use codegen::Function;
@@ -235,27 +234,12 @@ pub fn decode_field(
                 let type_argument = type_argument_rc.borrow();
 
                 let type_parameter = &type_parameters[param_index];
-                let mut requires_cloning = String::from("");
-                if !type_argument.fully_resolved {
-                    requires_cloning = ".clone()".into();
-                }
-                let mut rvalue = format!(
-                    "{}{}",
-                    generate_expression(&type_argument, type_generator, scope),
-                    requires_cloning
-                );
-
-                if expression_requires_cast(
+                let rvalue = generate_type_argument(
+                    &type_argument,
                     &type_parameter.borrow().zserio_type,
                     type_generator,
-                    &type_argument,
-                ) {
-                    rvalue = format!(
-                        "{} as {}",
-                        rvalue,
-                        type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
-                    );
-                }
+                    scope,
+                );
 
                 function.line(format!(
                     "{}: {},",
@@ -338,26 +322,12 @@ pub fn decode_field(
                     continue;
                 }
                 let type_parameter = &type_parameters[param_index];
-                let mut requires_cloning = String::from("");
-                if !type_argument.fully_resolved {
-                    requires_cloning = ".clone()".into();
-                }
-                let mut rvalue = format!(
-                    "{}{}",
-                    generate_expression(&type_argument, type_generator, scope),
-                    requires_cloning
-                );
-                if expression_requires_cast(
+                let rvalue = generate_type_argument(
+                    &type_argument,
                     &type_parameter.borrow().zserio_type,
                     type_generator,
-                    &type_argument,
-                ) {
-                    rvalue = format!(
-                        "{} as {}",
-                        rvalue,
-                        type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
-                    );
-                }
+                    scope,
+                );
                 function.line(format!(
                     "{}: {},",
                     TypeGenerator::convert_field_name(&type_parameter.borrow().name),
@@ -383,26 +353,12 @@ pub fn decode_field(
                         continue;
                     }
                     let type_parameter = &type_parameters[param_index];
-                    let mut requires_cloning = String::from("");
-                    if !type_argument.fully_resolved {
-                        requires_cloning = ".clone()".into();
-                    }
-                    let mut rvalue = format!(
-                        "{}{}",
-                        generate_expression(&type_argument, type_generator, scope),
-                        requires_cloning
-                    );
-                    if expression_requires_cast(
+                    let rvalue = generate_type_argument(
+                        &type_argument,
                         &type_parameter.borrow().zserio_type,
                         type_generator,
-                        &type_argument,
-                    ) {
-                        rvalue = format!(
-                            "{} as {}",
-                            rvalue,
-                            type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
-                        );
-                    }
+                        scope,
+                    );
                     function.line(format!(
                         "zs_item.{} = {};",
                         TypeGenerator::convert_field_name(&type_parameter.borrow().name),
diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index 1f9775c..903164b 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -2,12 +2,11 @@ use crate::internal::ast::field::Field;
 use crate::internal::compiler::fundamental_type::FundamentalZserioTypeReference;
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::array::initialize_array_trait;
-use crate::internal::generator::casts::expression_requires_cast;
 use crate::internal::generator::expression::{generate_boolean_expression, generate_expression};
 use crate::internal::generator::index_offsets::extract_indexed_offset_expression;
 use crate::internal::generator::packed_contexts::FieldDetails;
 use crate::internal::generator::pass_parameters::{
-    does_expression_contains_index_operator, get_type_parameter,
+    does_expression_contains_index_operator, generate_type_argument, get_type_parameter,
 };
 use crate::internal::generator::types::TypeGenerator;
 
@@ -239,19 +238,12 @@ pub fn encode_field(
             // proper error handling, and reporting the error back to
             // the caller.
 
-            // Check if casts are needed.
-            let mut rvalue = generate_expression(&type_argument, type_generator, scope);
-            if expression_requires_cast(
+            let rvalue = generate_type_argument(
+                &type_argument,
                 &type_parameter.borrow().zserio_type,
                 type_generator,
-                &type_argument,
-            ) {
-                rvalue = format!(
-                    "{} as {}",
-                    rvalue,
-                    type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
-                );
-            }
+                scope,
+            );
             function.line(format!(
                 "assert!({}.{} == {});",
                 &element_name,
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index b46d8c3..6813142 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -30,6 +30,14 @@ pub fn generate_expression(
     scope: &ModelScope,
 ) -> String {
     assert!(expression.evaluation_state == EvaluationState::Completed);
+    if expression.fully_resolved && expression.operand1.is_some() {
+        // The value of the operator is already known.
+        match &expression.result_type {
+            ExpressionType::Integer(value) => return format!("({value})"),
+            ExpressionType::String(value) => return format!("{value:?}"),
+            _ => (),
+        }
+    }
     match expression.expression_type {
         LPAREN => format!(
             "({})",
@@ -68,101 +76,102 @@ pub fn generate_expression(
     }
 }
 
-fn generate_unary_arithmetic_expression(
+/// Generates an operand of an arithmetic, bitwise or comparison operator, converted to the
+/// given rust type. Numerals do not have a type of their own, and do not need a conversion.
+fn generate_operand(
     expression: &Expression,
+    rust_type: &str,
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
-    format!(
-        "{}{}",
-        match expression.expression_type {
-            PLUS => "+",
-            MINUS => "-",
-            _ => panic!("unexpected unary arithmetic expression operator"),
-        },
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
-    )
+    let code = generate_expression(expression, type_generator, scope);
+    match &expression.native_type {
+        Some(native_type) if type_generator.ztype_to_rust_type(native_type) != rust_type => {
+            format!("(({code}) as {rust_type})")
+        }
+        None if expression.fully_resolved => format!("(({code}) as {rust_type})"),
+        _ => format!("({code})"),
+    }
 }
 
-fn generate_arithmetic_expression(
+/// The rust type that the operands of a numeric operator need to be converted to.
+/// Returns None for operands that are not numbers.
+fn get_operand_type(expression: &Expression) -> Option<&'static str> {
+    let operand1 = expression.operand1.as_ref().unwrap();
+    let operand2 = expression.operand2.as_ref().unwrap_or(operand1);
+    match (&operand1.result_type, &operand2.result_type) {
+        (ExpressionType::Integer(_), ExpressionType::Integer(_)) => Some("i128"),
+        (
+            ExpressionType::Integer(_) | ExpressionType::Float(_),
+            ExpressionType::Integer(_) | ExpressionType::Float(_),
+        ) => Some("f64"),
+        _ => None,
+    }
+}
+
+fn generate_binary_expression(
     expression: &Expression,
+    operator: &str,
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
-    if expression.operand2.is_none() {
-        // an arithmetic expression may be +5 or -5, i.e. a sign
-        // of a float or integer expression.
-        return generate_unary_arithmetic_expression(expression, type_generator, scope);
+    let operand1 = expression.operand1.as_ref().unwrap();
+    let operand2 = expression.operand2.as_ref().unwrap();
+    match get_operand_type(expression) {
+        Some(rust_type) => format!(
+            "{} {} {}",
+            generate_operand(operand1, rust_type, type_generator, scope),
+            operator,
+            generate_operand(operand2, rust_type, type_generator, scope),
+        ),
+        None => format!(
+            "({}) {} ({})",
+            generate_expression(operand1, type_generator, scope),
+            operator,
+            generate_expression(operand2, type_generator, scope),
+        ),
     }
+}
 
-    // Check if casts are required
-    let mut op1 = generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope);
-    let mut op2 = generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope);
-
-    let mut expression_type = None;
-    let mut op1_rust_type = None;
-    let mut op2_rust_type = None;
-
-    // Check if casting is needed because of different original types.
-    // Casting is needed in the following cases:
-    // - mixing floats with integers
-    // - mixing signed/unsigned types
-    // - mixing different bit lengths
-    // - mixing numerals of different types
-    // Casting is not needed in the following cases:
-    // - The expression result is not an integer.
-    // - One or both operands are numerals without type annotations, for example
-    //   "17.5 + 13.6"
-    match &expression.result_type {
-        ExpressionType::Integer(_) | ExpressionType::BitMask(_) | ExpressionType::Float(_) => {
-            if let Some(native_type) = &expression.native_type {
-                expression_type = Some(type_generator.ztype_to_rust_type(native_type));
-                if let Some(op1_native_type) = &expression.operand1.as_ref().unwrap().native_type {
-                    op1_rust_type = Some(type_generator.ztype_to_rust_type(op1_native_type));
-                }
-                if let Some(op2_native_type) = &expression.operand2.as_ref().unwrap().native_type {
-                    op2_rust_type = Some(type_generator.ztype_to_rust_type(op2_native_type));
-                }
-            }
-        }
-        ExpressionType::String(_) => {
-            // For string operations, using "+" sucks, due to the different issues with string
-            // ownership, and mixing "String" with "str", reference, etc. The easiest
-            // solution is to just use the format macro.
-            assert!(expression.expression_type == PLUS);
-            // Inception code
-            return format!("format!(\"{{}}{{}}\", {}, {})", op1, op2,);
-        }
-        _ => (),
+fn generate_arithmetic_expression(
+    expression: &Expression,
+    type_generator: &mut TypeGenerator,
+    scope: &ModelScope,
+) -> String {
+    let operator = match expression.expression_type {
+        PLUS => "+",
+        MINUS => "-",
+        MULTIPLY => "*",
+        DIVIDE => "/",
+        MODULO => "%",
+        _ => panic!("unexpected arithmetic expression operator"),
     };
-
-    // Generate the type casts
-    if let Some(result_type) = expression_type {
-        if let Some(op1_result_type) = op1_rust_type {
-            if result_type != op1_result_type {
-                op1 = format!("(({}) as {})", op1, result_type);
-            }
-        }
-        if let Some(op2_result_type) = op2_rust_type {
-            if result_type != op2_result_type {
-                op2 = format!("(({}) as {})", op2, result_type);
-            }
+    if expression.operand2.is_none() {
+        // an arithmetic expression may be +5 or -5, i.e. a sign
+        // of a float or integer expression. Rust does not have an unary "+".
+        let operand = expression.operand1.as_ref().unwrap();
+        if expression.expression_type == PLUS {
+            return format!("({})", generate_expression(operand, type_generator, scope));
         }
+        let rust_type = get_operand_type(expression).unwrap();
+        return format!(
+            "-{}",
+            generate_operand(operand, rust_type, type_generator, scope)
+        );
     }
-
-    format!(
-        "{} {} {}",
-        op1,
-        match expression.expression_type {
-            PLUS => "+",
-            MINUS => "-",
-            MULTIPLY => "*",
-            DIVIDE => "/",
-            MODULO => "%",
-            _ => panic!("unexpected arithmetic expression operator"),
-        },
-        op2,
-    )
+    if let ExpressionType::String(_) = &expression.result_type {
+        // For string operations, using "+" sucks, due to the different issues with string
+        // ownership, and mixing "String" with "str", reference, etc. The easiest
+        // solution is to just use the format macro.
+        assert!(expression.expression_type == PLUS);
+        // Inception code
+        return format!(
+            "format!(\"{{}}{{}}\", {}, {})",
+            generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
+            generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
+        );
+    }
+    generate_binary_expression(expression, operator, type_generator, scope)
 }
 
 fn generate_bracketed_expression(
@@ -171,30 +180,12 @@ fn generate_bracketed_expression(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "{}[{}]",
+        "{}[({}) as usize]",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
         generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
     )
 }
 
-fn is_bitmask_expression(expression: &Expression, scope: &ModelScope) -> bool {
-    if let Some(expr_symbol) = &expression.symbol {
-        let fund_type = match &expr_symbol.symbol {
-            Symbol::Field(field) => get_fundamental_type(&field.borrow().field_type, scope),
-            Symbol::Parameter(param) => get_fundamental_type(&param.borrow().zserio_type, scope),
-            _ => return false,
-        };
-        if fund_type.fundamental_type.is_builtin {
-            return false;
-        }
-        return matches!(
-            scope.get_symbol(&fund_type.fundamental_type).symbol,
-            Symbol::Bitmask(_)
-        );
-    }
-    false
-}
-
 fn generate_dot_expression(
     expression: &Expression,
     type_generator: &mut TypeGenerator,
@@ -242,7 +233,7 @@ fn generate_isset_expression(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "{} & ({}) != 0",
+        "(({}) & ({})) != 0",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
         generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope)
     )
@@ -255,14 +246,13 @@ fn generate_valueof_expression(
 ) -> String {
     let native_type = expression.native_type.as_ref().unwrap();
     let fundamental_type = get_fundamental_type(native_type, scope);
-    let bitmask_suffix = if is_bitmask_expression(expression.operand1.as_ref().unwrap(), scope) {
-        ".bits()"
-    } else {
-        ""
+    let bitmask_suffix = match expression.operand1.as_ref().unwrap().result_type {
+        ExpressionType::BitMask(_) => ".bits()",
+        _ => "",
     };
 
     format!(
-        "{}{} as {}",
+        "(({}){} as {})",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
         bitmask_suffix,
         type_generator.ztype_to_rust_type(&fundamental_type.fundamental_type),
@@ -286,7 +276,7 @@ fn generate_numbits_expression(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "(zserio::numbits({}) as u32)",
+        "(zserio::numbits(({}) as u64) as u32)",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope)
     )
 }
@@ -337,16 +327,43 @@ fn generate_ternary_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
+    let operand2 = expression.operand2.as_ref().unwrap();
+    let operand3 = expression.operand3.as_ref().unwrap();
+    let mut branch = |operand: &Expression| match (&operand2.result_type, &operand3.result_type) {
+        (ExpressionType::Integer(_), ExpressionType::Integer(_)) => {
+            generate_operand(operand, "i128", type_generator, scope)
+        }
+        (ExpressionType::Float(_), ExpressionType::Float(_)) => {
+            generate_operand(operand, "f64", type_generator, scope)
+        }
+        (ExpressionType::String(_), _) => {
+            generate_string_expression(operand, type_generator, scope)
+        }
+        _ => generate_expression(operand, type_generator, scope),
+    };
+    let taken = branch(operand2);
+    let otherwise = branch(operand3);
     format!(
-        "
-if {} {{
+        "(if {} {{
     {}
 }} else {{
     {}
-}}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
-        generate_expression(expression.operand3.as_ref().unwrap(), type_generator, scope),
+}})",
+        generate_boolean_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
+        taken,
+        otherwise,
+    )
+}
+
+/// Generates an expression that yields an owned string.
+pub fn generate_string_expression(
+    expression: &Expression,
+    type_generator: &mut TypeGenerator,
+    scope: &ModelScope,
+) -> String {
+    format!(
+        "String::from(({}).clone())",
+        generate_expression(expression, type_generator, scope)
     )
 }
 
@@ -356,7 +373,7 @@ fn generate_logical_negation(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "!{}",
+        "!({})",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope)
     )
 }
@@ -367,8 +384,13 @@ fn generate_bitwise_negation(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "~{}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope)
+        "!{}",
+        generate_operand(
+            expression.operand1.as_ref().unwrap(),
+            "i128",
+            type_generator,
+            scope
+        )
     )
 }
 
@@ -377,19 +399,15 @@ fn generate_bitwise_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
-    format!(
-        "{} {} {}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
-        match expression.expression_type {
-            AND => "&",
-            OR => "|",
-            XOR => "^",
-            LSHIFT => "<<",
-            RSHIFT => ">>",
-            _ => panic!("unexpected bitwise expression operator"),
-        },
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
-    )
+    let operator = match expression.expression_type {
+        AND => "&",
+        OR => "|",
+        XOR => "^",
+        LSHIFT => "<<",
+        RSHIFT => ">>",
+        _ => panic!("unexpected bitwise expression operator"),
+    };
+    generate_binary_expression(expression, operator, type_generator, scope)
 }
 
 fn generate_logical_expression(
@@ -398,7 +416,7 @@ fn generate_logical_expression(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "{} {} {}",
+        "({}) {} ({})",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
         match expression.expression_type {
             LOGICAL_AND => "&&",
@@ -414,20 +432,16 @@ fn generate_comparison_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
-    format!(
-        "{} {} {}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
-        match expression.expression_type {
-            EQ => "==",
-            LE => "<=",
-            LT => "<",
-            GT => ">",
-            GE => ">=",
-            NE => "!=",
-            _ => panic!("unexpected comparison expression operator"),
-        },
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
-    )
+    let operator = match expression.expression_type {
+        EQ => "==",
+        LE => "<=",
+        LT => "<",
+        GT => ">",
+        GE => ">=",
+        NE => "!=",
+        _ => panic!("unexpected comparison expression operator"),
+    };
+    generate_binary_expression(expression, operator, type_generator, scope)
 }
 
 fn generate_literal_expression(expression: &Expression) -> String {
@@ -444,10 +458,12 @@ fn generate_literal_expression(expression: &Expression) -> String {
     };
 
     match expression.expression_type {
-        DECIMAL_LITERAL => i32::to_string(&int_value),
+        DECIMAL_LITERAL => int_value.to_string(),
         HEXADECIMAL_LITERAL => format!("{int_value:#x}"),
         OCTAL_LITERAL => format!("{int_value:#o}"),
-        FLOAT_LITERAL | DOUBLE_LITERAL => format!("{}", &float_value),
+        BINARY_LITERAL => format!("{int_value:#b}"),
+        // The debug format always contains a decimal point or an exponent.
+        FLOAT_LITERAL | DOUBLE_LITERAL => format!("{float_value:?}"),
         BOOL_LITERAL => {
             if bool_value {
                 String::from("true")
@@ -455,14 +471,7 @@ fn generate_literal_expression(expression: &Expression) -> String {
                 String::from("false")
             }
         }
-        STRING_LITERAL => {
-            if expression.fully_resolved {
-                return format!("\"{}\"", &string_value);
-            }
-            // need to cast into a rust string
-            format!("\"{}\".into()", &string_value)
-        }
-
+        STRING_LITERAL => format!("{string_value:?}"),
         _ => panic!("unexpected comparison expression operator"),
     }
 }
@@ -470,5 +479,5 @@ fn generate_literal_expression(expression: &Expression) -> String {
 fn generate_index_operator() -> String {
     // Make sure this variable name matches the one used in encode/decode code generators
     // where the parameters are passed.
-    "param_index".into()
+    "(param_index as u32)".into()
 }
diff --git a/crates/zserio-rs-build/src/internal/generator/function.rs b/crates/zserio-rs-build/src/internal/generator/function.rs
index 005a28f..986e4af 100644
--- a/crates/zserio-rs-build/src/internal/generator/function.rs
+++ b/crates/zserio-rs-build/src/internal/generator/function.rs
@@ -1,6 +1,7 @@
+use crate::internal::ast::expression::ExpressionType;
 use crate::internal::ast::zfunction::ZFunction;
 use crate::internal::compiler::symbol_scope::ModelScope;
-use crate::internal::generator::expression::generate_expression;
+use crate::internal::generator::expression::{generate_expression, generate_string_expression};
 use crate::internal::generator::types::{convert_to_function_name, TypeGenerator};
 use codegen::Impl;
 
@@ -23,28 +24,20 @@ pub fn generate_function(
     fn_gen_scope.arg_ref_self();
     fn_gen_scope.vis("pub");
 
-    if zserio_function.return_type.is_builtin
-        && zserio_function.return_type.name == "string"
-        && !zserio_function.result.as_ref().borrow().fully_resolved
-    {
-        fn_gen_scope.line(format!(
-            "{}.clone()",
-            generate_expression(
-                &zserio_function.result.as_ref().borrow(),
-                type_generator,
-                scope
-            ),
-        ));
-    } else {
-        // Generate the function content.
-        fn_gen_scope.line(format!(
+    // Generate the function content.
+    let result = zserio_function.result.as_ref().borrow();
+    let line = match result.result_type {
+        ExpressionType::String(_) => generate_string_expression(&result, type_generator, scope),
+        ExpressionType::Integer(_) | ExpressionType::Float(_) => format!(
             "({}) as {}",
-            generate_expression(
-                &zserio_function.result.as_ref().borrow(),
-                type_generator,
-                scope
-            ),
+            generate_expression(&result, type_generator, scope),
             type_generator.ztype_to_rust_type(&zserio_function.return_type),
-        ));
-    }
+        ),
+        ExpressionType::Bool(_) => generate_expression(&result, type_generator, scope),
+        _ => format!(
+            "({}).clone()",
+            generate_expression(&result, type_generator, scope)
+        ),
+    };
+    fn_gen_scope.line(line);
 }
diff --git a/crates/zserio-rs-build/src/internal/generator/pass_parameters.rs b/crates/zserio-rs-build/src/internal/generator/pass_parameters.rs
index 4d3458c..c1c3bb3 100644
--- a/crates/zserio-rs-build/src/internal/generator/pass_parameters.rs
+++ b/crates/zserio-rs-build/src/internal/generator/pass_parameters.rs
@@ -1,8 +1,12 @@
 use crate::internal::ast::{
-    expression::Expression, parameter::Parameter, type_reference::TypeReference,
+    expression::{Expression, ExpressionType},
+    parameter::Parameter,
+    type_reference::TypeReference,
 };
 
 use crate::internal::compiler::symbol_scope::{ModelScope, Symbol};
+use crate::internal::generator::expression::{generate_expression, generate_string_expression};
+use crate::internal::generator::types::TypeGenerator;
 use crate::internal::parser::gen::zserioparser::INDEX;
 use std::cell::RefCell;
 use std::rc::Rc;
@@ -20,6 +24,27 @@ pub fn get_type_parameter(
     }
 }
 
+/// Generates the value that is passed to a type parameter of the given type.
+pub fn generate_type_argument(
+    argument: &Expression,
+    parameter_type: &TypeReference,
+    type_generator: &mut TypeGenerator,
+    scope: &ModelScope,
+) -> String {
+    match argument.result_type {
+        ExpressionType::Integer(_) | ExpressionType::Float(_) => format!(
+            "(({}) as {})",
+            generate_expression(argument, type_generator, scope),
+            type_generator.ztype_to_rust_type(parameter_type)
+        ),
+        ExpressionType::String(_) => generate_string_expression(argument, type_generator, scope),
+        _ => format!(
+            "({}).clone()",
+            generate_expression(argument, type_generator, scope)
+        ),
+    }
+}
+
 /// Return the number of fields in the rust struct that is generated for this type.
 pub fn number_of_fields(scope: &ModelScope, type_ref: &TypeReference) -> usize {
     let symbol = scope.get_symbol(type_ref);
diff --git a/crates/zserio-rs-build/src/internal/generator/types.rs b/crates/zserio-rs-build/src/internal/generator/types.rs
index a1fca93..36dc097 100644
--- a/crates/zserio-rs-build/src/internal/generator/types.rs
+++ b/crates/zserio-rs-build/src/internal/generator/types.rs
@@ -1,3 +1,4 @@
+use crate::internal::ast::evaluate_mixing_native_types::WIDE_INTEGER_TYPE;
 use crate::internal::ast::type_reference::TypeReference;
 use stringcase::Caser;
 
@@ -129,6 +130,8 @@ pub fn zserio_to_rust_type(name: &str) -> Result<String, &'static str> {
         "bool" => Ok("bool".into()),
         "bit" => Ok("u64".into()),
         "int" => Ok("i64".into()),
+        // This type is only used for the results of integer operators.
+        WIDE_INTEGER_TYPE => Ok("i128".into()),
         "extern" => Ok("ztype::ExternType".into()),
         "bytes" => Ok("ztype::BytesType".into()),
         _ => Err("not found"),
diff --git a/crates/zserio-rs-build/src/internal/generator/zconst.rs b/crates/zserio-rs-build/src/internal/generator/zconst.rs
index ce8eeff..cc07747 100644
--- a/crates/zserio-rs-build/src/internal/generator/zconst.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zconst.rs
@@ -1,3 +1,4 @@
+use crate::internal::ast::expression::ExpressionType;
 use crate::internal::ast::zconst::ZConst;
 use crate::internal::compiler::fundamental_type::get_fundamental_type;
 use crate::internal::compiler::symbol_scope::ModelScope;
@@ -40,15 +41,17 @@ pub fn generate_constant(
         "&str".clone_into(&mut field_type);
     }
 
+    let value_expression = zconst.value_expression.borrow();
+    let mut value = generate_expression(&value_expression, type_generator, symbol_scope);
+    if let ExpressionType::Integer(_) | ExpressionType::Float(_) = value_expression.result_type {
+        value = format!("({value}) as {field_type}");
+    }
+
     file_content += format!(
         "pub const {}: {} = {};\n",
         to_rust_constant_name(&zconst.name),
         field_type,
-        generate_expression(
-            &zconst.value_expression.borrow(),
-            type_generator,
-            symbol_scope
-        ),
+        value,
     )
     .as_str();
 
diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index b8cc798..0b6e790 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -943,28 +943,28 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             ),
             _ if literal_ctx.DECIMAL_LITERAL().is_some() => ExpressionType::Integer(
                 literal_text
-                    .parse::<i32>()
+                    .parse::<i128>()
                     .expect("failed to parse integer expression"),
             ),
             _ if literal_ctx.HEXADECIMAL_LITERAL().is_some() => ExpressionType::Integer(
-                i32::from_str_radix(literal_text.trim_start_matches("0x"), 16)
-                    .expect("Not a hex number!"),
+                i128::from_str_radix(&literal_text[2..], 16).expect("Not a hex number!"),
             ),
             _ if literal_ctx.OCTAL_LITERAL().is_some() => ExpressionType::Integer(
-                i32::from_str_radix(literal_text.as_str(), 8).expect("Not an octal number!"),
+                i128::from_str_radix(literal_text.as_str(), 8).expect("Not an octal number!"),
             ),
             _ if literal_ctx.BINARY_LITERAL().is_some() => ExpressionType::Integer(
-                i32::from_str_radix(literal_text.trim_end_matches('b'), 2)
+                i128::from_str_radix(literal_text.trim_end_matches(['b', 'B']), 2)
                     .expect("Not a binary number!"),
             ),
             _ if literal_ctx.STRING_LITERAL().is_some() => {
                 assert!(literal_text.len() >= 2);
-                ExpressionType::String(literal_text[1..literal_text.len() - 1].into())
+                ExpressionType::String(unescape_string(&literal_text[1..literal_text.len() - 1]))
             }
             _ if literal_ctx.FLOAT_LITERAL().is_some() => ExpressionType::Float(
                 literal_text
-                    .parse::<f64>()
-                    .expect("failed to parse float32 expression"),
+                    .trim_end_matches(['f', 'F'])
+                    .parse::<f32>()
+                    .expect("failed to parse float32 expression") as f64,
             ),
             _ if literal_ctx.DOUBLE_LITERAL().is_some() => ExpressionType::Float(
                 literal_text
@@ -1582,3 +1582,48 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
         self.visit(&*ctx.expression().unwrap())
     }
 }
+
+/// Replaces the escape sequences of a string literal by the characters they stand for.
+fn unescape_string(text: &str) -> String {
+    let mut result = String::new();
+    let mut chars = text.chars();
+    while let Some(c) = chars.next() {
+        if c != '\\' {
+            result.push(c);
+            continue;
+        }
+        let hex_digits = match chars.next().expect("incomplete escape sequence") {
+            'n' => {
+                result.push('\n');
+                continue;
+            }
+            'r' => {
+                result.push('\r');
+                continue;
+            }
+            't' => {
+                result.push('\t');
+                continue;
+            }
+            'f' => {
+                result.push('\u{c}');
+                continue;
+            }
+            'u' => 4,
+            'x' => 2,
+            other => {
+                // escaped quotation marks and backslashes
+                result.push(other);
+                continue;
+            }
+        };
+        let code: String = chars.by_ref().take(hex_digits).collect();
+        result.push(
+            u32::from_str_radix(&code, 16)
+                .ok()
+                .and_then(char::from_u32)
+                .expect("invalid character in escape sequence"),
+        );
+    }
+    result
+}
-- 
2.43.0


From 62e981c5ea34ab6ce707ad3b023ea17a0c4f892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 03/30] fix: support all underlying types and values of enums
 and bitmasks

---
 .../src/internal/ast/zbitmask.rs              | 28 ++++++-------
 .../zserio-rs-build/src/internal/ast/zenum.rs | 20 ++++++++-
 .../src/internal/compiler/resolve_types.rs    | 14 +++++++
 .../src/internal/generator/zbitmask.rs        | 12 +++---
 .../src/internal/generator/zenum.rs           | 42 +++++++------------
 crates/zserio-rs-build/src/internal/model.rs  | 24 ++++++++++-
 6 files changed, 87 insertions(+), 53 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/zbitmask.rs b/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
index 158afeb..5c96f66 100644
--- a/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
+++ b/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
@@ -36,31 +36,29 @@ pub struct ZBitmaskType {
 impl ZBitmaskType {
     /// Evaluates all expressions within this bitmask type.
     pub fn evaluate(&mut self, scope: &mut ModelScope) {
-        let mut bitmask_value = 1u64;
+        let mut last_value: Option<u64> = None;
         for value in &mut self.values {
+            let mut bitmask_value = 1u64;
             // Check if the bitmask value has a value hard-coded.
             // If yes, use the value from the expression.
             if let Some(value_expression_rc) = &mut value.value_expression {
                 let mut value_expression = value_expression_rc.as_ref().borrow_mut();
 
                 value_expression.evaluate(scope);
-                let expr_bitmask_value = match value_expression.result_type {
-                    ExpressionType::Integer(v) => v as u64,
-                    _ => panic!("only integer bitmask values are supported"),
+                bitmask_value = match value_expression.result_type {
+                    ExpressionType::Integer(v) if value_expression.fully_resolved => {
+                        u64::try_from(v).expect("bitmask value is out of range")
+                    }
+                    _ => panic!("only constant integer bitmask values are supported"),
                 };
-                if expr_bitmask_value < bitmask_value && expr_bitmask_value != 0 {
-                    panic!("expression redefines bitmask value");
-                }
-                bitmask_value = expr_bitmask_value;
+            } else if let Some(last_value) = last_value {
+                // Pick the bit following the highest bit of the previous value.
+                bitmask_value = 1u64
+                    .checked_shl(u64::BITS - last_value.leading_zeros())
+                    .expect("there is no free bit for the bitmask value");
             }
             value.value = bitmask_value;
-
-            // Pick the next bit for the next bitmask value.
-            if bitmask_value == 0 {
-                bitmask_value = 1;
-            } else {
-                bitmask_value <<= 1;
-            }
+            last_value = Some(bitmask_value);
         }
         self.zserio_type.evaluate(scope);
     }
diff --git a/crates/zserio-rs-build/src/internal/ast/zenum.rs b/crates/zserio-rs-build/src/internal/ast/zenum.rs
index 872e849..6ebdca0 100644
--- a/crates/zserio-rs-build/src/internal/ast/zenum.rs
+++ b/crates/zserio-rs-build/src/internal/ast/zenum.rs
@@ -1,4 +1,4 @@
-use super::expression::Expression;
+use super::expression::{Expression, ExpressionType};
 use super::type_reference::TypeReference;
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::compiler::symbol_scope::{PackageScope, Symbol};
@@ -21,6 +21,24 @@ pub struct ZEnum {
 }
 
 impl ZEnum {
+    /// Returns the values of all items, in the order of their declaration.
+    pub fn get_item_values(&self) -> Vec<i128> {
+        let mut next_value = 0;
+        let mut values = vec![];
+        for item in &self.items {
+            if let Some(value_expression) = &item.value {
+                let value_expression = value_expression.as_ref().borrow();
+                match value_expression.result_type {
+                    ExpressionType::Integer(v) if value_expression.fully_resolved => next_value = v,
+                    _ => panic!("only constant integer value expressions are supported"),
+                }
+            }
+            values.push(next_value);
+            next_value += 1;
+        }
+        values
+    }
+
     pub fn evaluate(&mut self, scope: &mut ModelScope) {
         for item in &mut self.items {
             if let Some(item_expression) = &mut item.value {
diff --git a/crates/zserio-rs-build/src/internal/compiler/resolve_types.rs b/crates/zserio-rs-build/src/internal/compiler/resolve_types.rs
index b2cef2a..e22afb3 100644
--- a/crates/zserio-rs-build/src/internal/compiler/resolve_types.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/resolve_types.rs
@@ -1,6 +1,8 @@
 use crate::internal::ast::type_reference::TypeReference;
+use crate::internal::ast::zbitmask::ZBitmaskType;
 use crate::internal::ast::zchoice::ZChoice;
 use crate::internal::ast::zconst::ZConst;
+use crate::internal::ast::zenum::ZEnum;
 use crate::internal::ast::zstruct::ZStruct;
 use crate::internal::ast::zsubtype::Subtype;
 use crate::internal::ast::zunion::ZUnion;
@@ -67,6 +69,18 @@ pub fn resolve_union_types(z_union: &ZUnion, scope: &ModelScope) {
     }
 }
 
+/// Resolves the underlying type of an enum, and assigns the full package path
+/// to the type reference.
+pub fn resolve_enum_types(z_enum: &mut ZEnum, scope: &ModelScope) {
+    resolve_type_reference(&mut z_enum.enum_type, scope);
+}
+
+/// Resolves the underlying type of a bitmask, and assigns the full package path
+/// to the type reference.
+pub fn resolve_bitmask_types(z_bitmask: &mut ZBitmaskType, scope: &ModelScope) {
+    resolve_type_reference(&mut z_bitmask.zserio_type, scope);
+}
+
 /// Resolves all type references within a subtype, and assigns the full package path
 /// to the type reference.
 pub fn resolve_subtype(z_subtype: &mut Subtype, scope: &ModelScope) {
diff --git a/crates/zserio-rs-build/src/internal/generator/zbitmask.rs b/crates/zserio-rs-build/src/internal/generator/zbitmask.rs
index f7449b2..ae4f3d0 100644
--- a/crates/zserio-rs-build/src/internal/generator/zbitmask.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zbitmask.rs
@@ -63,9 +63,9 @@ pub fn generate_bitmask(
     z_impl.impl_trait("ztype::ZserioPackableObject");
 
     // generate the functions to serialize/deserialize
-    generate_zserio_read(scope, type_generator, z_impl, zbitmask, &fundamental_type);
+    generate_zserio_read(scope, type_generator, z_impl, &fundamental_type);
     generate_zserio_write(scope, type_generator, z_impl, &fundamental_type);
-    generate_zserio_bitsize(scope, type_generator, z_impl, zbitmask, &fundamental_type);
+    generate_zserio_bitsize(scope, type_generator, z_impl, &fundamental_type);
 
     // Generate the packed contexts.
     let create_packing_context_fn = z_impl.new_fn("zserio_create_packing_context");
@@ -92,7 +92,6 @@ fn generate_zserio_read(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
     impl_codegen: &mut codegen::Impl,
-    zbitmask: &ZBitmaskType,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
     let zserio_read_fn = impl_codegen.new_fn("zserio_read");
@@ -105,7 +104,7 @@ fn generate_zserio_read(
         zserio_read_fn,
         &format!(
             "let v: {}",
-            zserio_to_rust_type(zbitmask.zserio_type.name.as_str()).unwrap()
+            zserio_to_rust_type(&fundamental_type.fundamental_type.name).unwrap()
         ),
         &String::from(""),
         fundamental_type,
@@ -122,7 +121,7 @@ fn generate_zserio_read(
     zserio_read_packed_fn.ret("Result<()>");
     zserio_read_packed_fn.line(format!(
         "let mut v: {} = 0;",
-        zserio_to_rust_type(zbitmask.zserio_type.name.as_str()).unwrap()
+        zserio_to_rust_type(&fundamental_type.fundamental_type.name).unwrap()
     ));
     decode_type(
         scope,
@@ -182,12 +181,11 @@ fn generate_zserio_bitsize(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
     impl_codegen: &mut codegen::Impl,
-    zbitmask: &ZBitmaskType,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
     let rust_type_name = format!(
         "(self.bits as {})",
-        zserio_to_rust_type(zbitmask.zserio_type.name.as_str()).unwrap()
+        zserio_to_rust_type(&fundamental_type.fundamental_type.name).unwrap()
     );
 
     let bitsize_fn = impl_codegen.new_fn("zserio_bitsize");
diff --git a/crates/zserio-rs-build/src/internal/generator/zenum.rs b/crates/zserio-rs-build/src/internal/generator/zenum.rs
index 7ad0bf0..5d15de2 100644
--- a/crates/zserio-rs-build/src/internal/generator/zenum.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zenum.rs
@@ -1,6 +1,6 @@
 use codegen::Scope;
 
-use crate::internal::ast::{expression::ExpressionType, zenum::ZEnum};
+use crate::internal::ast::zenum::ZEnum;
 use crate::internal::compiler::fundamental_type::{
     get_fundamental_type, FundamentalZserioTypeReference,
 };
@@ -38,15 +38,12 @@ pub fn generate_enum(
     gen_enum.derive("PartialEq");
     gen_enum.derive("Eq");
 
-    let mut enum_value = 0;
+    // The values of 64 bit types may not fit into the default representation of rust enums.
+    gen_enum.repr(&rust_type_type);
+
+    let item_values = zenum.get_item_values();
     let mut first_option = true;
-    for item in &zenum.items {
-        if let Some(value_expression) = &item.value {
-            match value_expression.as_ref().borrow().result_type {
-                ExpressionType::Integer(v) => enum_value = v,
-                _ => panic!("only integer value expressions are supported"),
-            }
-        }
+    for (item, enum_value) in zenum.items.iter().zip(&item_values) {
         let v = gen_enum.new_variant(format!(
             "{} = {}",
             convert_to_enum_field_name(&item.name),
@@ -56,7 +53,6 @@ pub fn generate_enum(
             v.annotation("#[default]");
             first_option = false;
         }
-        enum_value += 1;
     }
 
     let tryfrom_impl = gen_scope
@@ -68,21 +64,13 @@ pub fn generate_enum(
     from_int_fn.ret("Result<Self, Self::Error>");
     from_int_fn.line("match v {");
 
-    let mut enum_value = 0;
-    for item in &zenum.items {
-        if let Some(value_expression) = &item.value {
-            match value_expression.as_ref().borrow().result_type {
-                ExpressionType::Integer(v) => enum_value = v,
-                _ => panic!("only integer value expressions are supported"),
-            }
-        }
+    for (item, enum_value) in zenum.items.iter().zip(&item_values) {
         from_int_fn.line(format!(
             "{} => Ok({}::{}),",
-            enum_value,
+            *enum_value as i64,
             rust_type_name,
             convert_to_enum_field_name(&item.name)
         ));
-        enum_value += 1;
     }
 
     from_int_fn.line(format!(
@@ -97,8 +85,8 @@ pub fn generate_enum(
 
     // generate the functions to serialize/deserialize
     generate_zserio_read(scope, type_generator, z_impl, zenum, &fundamental_type);
-    generate_zserio_write(scope, type_generator, z_impl, zenum, &fundamental_type);
-    generate_zserio_bitsize(scope, type_generator, z_impl, zenum, &fundamental_type);
+    generate_zserio_write(scope, type_generator, z_impl, &fundamental_type);
+    generate_zserio_bitsize(scope, type_generator, z_impl, &fundamental_type);
 
     // Generate the packed contexts.
     let create_packing_context_fn = z_impl.new_fn("zserio_create_packing_context");
@@ -142,7 +130,7 @@ fn generate_zserio_read(
         zserio_read_fn,
         &format!(
             "let v: {}",
-            zserio_to_rust_type(&zenum.enum_type.name).unwrap()
+            zserio_to_rust_type(&fundamental_type.fundamental_type.name).unwrap()
         ),
         &String::from(""),
         fundamental_type,
@@ -159,7 +147,7 @@ fn generate_zserio_read(
     zserio_read_packed_fn.ret("Result<()>");
     zserio_read_packed_fn.line(format!(
         "let mut v: {} = 0;",
-        zserio_to_rust_type(zenum.enum_type.name.as_str()).unwrap()
+        zserio_to_rust_type(&fundamental_type.fundamental_type.name).unwrap()
     ));
     decode_type(
         scope,
@@ -179,12 +167,11 @@ fn generate_zserio_write(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
     impl_codegen: &mut codegen::Impl,
-    zenum: &ZEnum,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
     let rust_type_name = format!(
         "(*self as {})",
-        zserio_to_rust_type(zenum.enum_type.name.as_str()).unwrap()
+        zserio_to_rust_type(&fundamental_type.fundamental_type.name).unwrap()
     );
 
     let zserio_write_fn = impl_codegen.new_fn("zserio_write");
@@ -223,12 +210,11 @@ fn generate_zserio_bitsize(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
     impl_codegen: &mut codegen::Impl,
-    zenum: &ZEnum,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
     let rust_type_name = format!(
         "(*self as {})",
-        zserio_to_rust_type(zenum.enum_type.name.as_str()).unwrap()
+        zserio_to_rust_type(&fundamental_type.fundamental_type.name).unwrap()
     );
 
     let bitsize_fn = impl_codegen.new_fn("zserio_bitsize");
diff --git a/crates/zserio-rs-build/src/internal/model.rs b/crates/zserio-rs-build/src/internal/model.rs
index bb0af7e..878aa0a 100644
--- a/crates/zserio-rs-build/src/internal/model.rs
+++ b/crates/zserio-rs-build/src/internal/model.rs
@@ -1,7 +1,7 @@
 use crate::internal::ast::package::ZPackage;
 use crate::internal::compiler::resolve_types::{
-    resolve_choice_types, resolve_constant, resolve_struct_types, resolve_subtype,
-    resolve_union_types,
+    resolve_bitmask_types, resolve_choice_types, resolve_constant, resolve_enum_types,
+    resolve_struct_types, resolve_subtype, resolve_union_types,
 };
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::model::package::package_from_file;
@@ -108,6 +108,26 @@ impl Model {
                 scope.scope_stack.pop();
             }
 
+            for z_enum in &pkg.enums {
+                scope.scope_stack.push(ScopeLocation {
+                    package: pkg.name.clone(),
+                    import_symbol: None,
+                    symbol_name: Option::from(z_enum.borrow().name.clone()),
+                });
+                resolve_enum_types(&mut z_enum.borrow_mut(), scope);
+                scope.scope_stack.pop();
+            }
+
+            for z_bitmask in &pkg.bitmask_types {
+                scope.scope_stack.push(ScopeLocation {
+                    package: pkg.name.clone(),
+                    import_symbol: None,
+                    symbol_name: Option::from(z_bitmask.borrow().name.clone()),
+                });
+                resolve_bitmask_types(&mut z_bitmask.borrow_mut(), scope);
+                scope.scope_stack.pop();
+            }
+
             for z_subtype in &pkg.subtypes {
                 scope.scope_stack.push(ScopeLocation {
                     package: pkg.name.clone(),
-- 
2.43.0


From e2e855a1a076b087f9830f25ce727857f6a8253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 04/30] fix: borrow optional extern and bytes fields instead of
 moving them

---
 .../zserio-rs-build/src/internal/generator/encode.rs   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index 903164b..6075b23 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -114,11 +114,11 @@ pub fn requires_borrowing(field: &Field, native_type: &FundamentalZserioTypeRefe
     if !native_type.fundamental_type.is_builtin {
         return true;
     }
-    // for the native core types, strings make sense to pass by reference.
-    if native_type.fundamental_type.name == "string" {
-        return true;
-    }
-    false
+    // for the native core types, only numbers can be passed by copy.
+    matches!(
+        native_type.fundamental_type.name.as_str(),
+        "string" | "extern" | "bytes"
+    )
 }
 
 pub fn encode_field(
-- 
2.43.0


From 8bd8f63de39342210cc80635b9d57ad043e7000b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 05/30] fix: generate choice default cases, any selector
 expression, and reject unmatched selectors

---
 .../src/internal/ast/zchoice.rs               | 93 ++++++++-----------
 .../src/internal/compiler/symbol_scope.rs     | 22 +++++
 .../src/internal/generator/zchoice.rs         | 52 +++++++----
 crates/zserio-rs-build/src/internal/model.rs  |  2 +-
 .../zserio-rs-build/src/internal/visitor.rs   | 10 +-
 5 files changed, 104 insertions(+), 75 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/zchoice.rs b/crates/zserio-rs-build/src/internal/ast/zchoice.rs
index d74e0ef..786c3f3 100644
--- a/crates/zserio-rs-build/src/internal/ast/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/ast/zchoice.rs
@@ -74,7 +74,7 @@ impl ZChoice {
         }
     }
 
-    pub fn add_enumeration_type_prefix_to_choice_cases(&mut self) {
+    pub fn add_enumeration_type_prefix_to_choice_cases(&mut self, scope: &ModelScope) {
         // For enumerator parameters, this function will look for choice cases that are not fully
         // described, and replaces them by a dot expression.
         // This is needed to satisfy the zserio rule:
@@ -91,61 +91,48 @@ impl ZChoice {
             return;
         }
 
+        let selector_type = match &self.selector_expression.as_ref().borrow().result_type {
+            ExpressionType::Enum(z_enum) => ExpressionType::Enum(z_enum.clone()),
+            ExpressionType::BitMask(z_bitmask) => ExpressionType::BitMask(z_bitmask.clone()),
+            _ => return,
+        };
         for case in &mut self.cases {
             for condition in &mut case.conditions.iter_mut() {
-                let mut dot_expression = None;
-                {
-                    let condition_expression = condition.as_ref().borrow();
-                    if condition_expression.expression_type == ID {
-                        match &self
-                            .selector_expression
-                            .as_ref()
-                            .borrow()
-                            .symbol
-                            .as_ref()
-                            .unwrap()
-                            .symbol
-                        {
-                            Symbol::Parameter(p) => {
-                                let mut operand2 = Box::from(condition_expression.clone());
-                                operand2.flag = ExpressionFlag::IsDotExpressionRightOperand;
-
-                                dot_expression = Option::from(Expression {
-                                    expression_type: DOT,
-                                    flag: ExpressionFlag::None,
-                                    operand1: Option::from(Box::new(Expression {
-                                        expression_type: ID,
-                                        text: p.as_ref().borrow().zserio_type.name.clone(),
-                                        flag: ExpressionFlag::None,
-                                        operand1: None,
-                                        operand2: None,
-                                        operand3: None,
-                                        result_type: ExpressionType::Other,
-                                        symbol: None,
-                                        fully_resolved: false,
-                                        evaluation_state: EvaluationState::NotEvaluated,
-                                        native_type: None,
-                                    })),
-                                    operand2: Option::from(operand2),
-                                    operand3: None,
-                                    text: "".into(),
-                                    result_type: ExpressionType::Other,
-                                    symbol: None,
-                                    fully_resolved: false,
-                                    evaluation_state: EvaluationState::NotEvaluated,
-                                    native_type: None,
-                                });
-                            }
-                            _ => panic!("selector expression is not a parameter"),
-                        }
-                    }
-                }
-                if let Some(new_dot_expression) = dot_expression {
-                    // TODO fully understand how the rust FnOnce() works. Using
-                    // replace_with() would make this function non-mutable.
-                    //condition.replace_with(|dot_expression| dot_expression.clone());
-                    *condition = Rc::from(RefCell::from(new_dot_expression));
+                let condition_expression = condition.as_ref().borrow().clone();
+                if condition_expression.expression_type != ID {
+                    continue;
                 }
+                let mut operand2 = Box::from(condition_expression);
+                operand2.flag = ExpressionFlag::IsDotExpressionRightOperand;
+
+                // The type of the selector is already known, so there is no need to look it up
+                // (it may not even be visible in this package).
+                let operand1 = Expression {
+                    expression_type: ID,
+                    text: "".into(),
+                    flag: ExpressionFlag::None,
+                    operand1: None,
+                    operand2: None,
+                    operand3: None,
+                    symbol: Option::from(scope.find_declaration(&selector_type)),
+                    result_type: selector_type.clone(),
+                    fully_resolved: false,
+                    evaluation_state: EvaluationState::Completed,
+                    native_type: None,
+                };
+                *condition = Rc::from(RefCell::from(Expression {
+                    expression_type: DOT,
+                    flag: ExpressionFlag::None,
+                    operand1: Option::from(Box::new(operand1)),
+                    operand2: Option::from(operand2),
+                    operand3: None,
+                    text: "".into(),
+                    result_type: ExpressionType::Other,
+                    symbol: None,
+                    fully_resolved: false,
+                    evaluation_state: EvaluationState::NotEvaluated,
+                    native_type: None,
+                }));
             }
         }
     }
diff --git a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
index 0bbb258..ae25b8f 100644
--- a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
@@ -1,4 +1,5 @@
 use crate::internal::ast::{
+    expression::ExpressionType,
     field::Field,
     package::{ZImport, ZPackage},
     parameter::Parameter,
@@ -102,6 +103,27 @@ impl ModelScope {
         }
     }
 
+    /// Returns the reference to the declaration of the enum or bitmask an expression evaluates to.
+    pub fn find_declaration(&self, expression_type: &ExpressionType) -> SymbolReference {
+        for package_scope in self.package_scopes.values() {
+            for (name, symbol) in &package_scope.file_symbols {
+                let is_declaration = match (symbol, expression_type) {
+                    (Symbol::Enum(e1), ExpressionType::Enum(e2)) => Rc::ptr_eq(e1, e2),
+                    (Symbol::Bitmask(b1), ExpressionType::BitMask(b2)) => Rc::ptr_eq(b1, b2),
+                    _ => false,
+                };
+                if is_declaration {
+                    return SymbolReference {
+                        symbol: symbol.clone(),
+                        name: name.clone(),
+                        package: package_scope.name.clone(),
+                    };
+                }
+            }
+        }
+        panic!("no declaration found for {:?}", expression_type);
+    }
+
     /// This function resolves a symbol based on the imports in the current package.
     pub fn resolve_symbol(
         &self,
diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index 826b178..21a773b 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -1,5 +1,6 @@
 #![allow(clippy::type_complexity)]
 
+use crate::internal::ast::expression::ExpressionType;
 use codegen::{Function, Scope};
 
 use crate::internal::ast::zchoice::ZChoice;
@@ -101,14 +102,16 @@ pub fn generate_choice(
     init_packing_context_fn.arg_ref_self();
     init_packing_context_fn.arg("context_node", "&mut PackingContextNode");
     init_packing_context_fn.ret("Result<()>");
-    for field in &field_details {
-        generate_init_packed_context_for_field(
-            symbol_scope,
-            type_generator,
-            init_packing_context_fn,
-            field,
-        );
-    }
+    generate_choice_match_construct(
+        symbol_scope,
+        type_generator,
+        init_packing_context_fn,
+        zchoice,
+        true,
+        &|scope, type_generator, function, field_details, _| {
+            generate_init_packed_context_for_field(scope, type_generator, function, field_details)
+        },
+    );
     init_packing_context_fn.line("Ok(())");
 
     // Generate all the zserio functions.
@@ -139,20 +142,26 @@ pub fn generate_choice_match_construct(
     packed: bool,
     f: &dyn Fn(&ModelScope, &mut TypeGenerator, &mut Function, &FieldDetails, bool),
 ) {
-    let selector_name =
-        TypeGenerator::convert_field_name(&zchoice.selector_expression.as_ref().borrow().text);
     let mut context_node_index = 0;
 
-    code_gen_fn.line(format!("match self.{} {{", selector_name));
+    code_gen_fn.line(format!(
+        "match {} {{",
+        generate_expression(
+            &zchoice.selector_expression.as_ref().borrow(),
+            type_generator,
+            symbol_scope
+        )
+    ));
 
     for case in &zchoice.cases {
         let mut case_expressions = vec![];
         for case_expr in &case.conditions {
-            case_expressions.push(generate_expression(
-                &case_expr.as_ref().borrow(),
-                type_generator,
-                symbol_scope,
-            ));
+            let case_expr = case_expr.as_ref().borrow();
+            case_expressions.push(match &case_expr.result_type {
+                // Use the value, constants may have another type than the selector.
+                ExpressionType::Integer(value) if case_expr.fully_resolved => value.to_string(),
+                _ => generate_expression(&case_expr, type_generator, symbol_scope),
+            });
         }
         let selector_expression_evaluation = case_expressions.join(" | ");
 
@@ -180,7 +189,7 @@ pub fn generate_choice_match_construct(
         code_gen_fn.line("},");
     }
     if let Some(default_case) = &zchoice.default_case {
-        code_gen_fn.line("_ => (");
+        code_gen_fn.line("_ => {");
         if let Some(field) = &default_case.field {
             let default_field =
                 FieldDetails::from_field(field, context_node_index, symbol_scope, type_generator);
@@ -189,7 +198,7 @@ pub fn generate_choice_match_construct(
                 type_generator,
                 code_gen_fn,
                 &field.borrow(),
-                false,
+                packed,
                 default_field.is_packable,
             );
             f(
@@ -200,9 +209,12 @@ pub fn generate_choice_match_construct(
                 packed,
             );
         }
-        code_gen_fn.line("),");
+        code_gen_fn.line("},");
     } else {
-        code_gen_fn.line("_ => (),");
+        code_gen_fn.line(format!(
+            "_ => return Err(zserio::ZserioError::DataError(\"no match in choice {}\".into())),",
+            zchoice.name
+        ));
     }
     code_gen_fn.line("}");
 }
diff --git a/crates/zserio-rs-build/src/internal/model.rs b/crates/zserio-rs-build/src/internal/model.rs
index 878aa0a..288ea6a 100644
--- a/crates/zserio-rs-build/src/internal/model.rs
+++ b/crates/zserio-rs-build/src/internal/model.rs
@@ -261,7 +261,7 @@ impl Model {
                 z_choice.borrow().evaluate_selector_expression(scope);
                 z_choice
                     .borrow_mut()
-                    .add_enumeration_type_prefix_to_choice_cases();
+                    .add_enumeration_type_prefix_to_choice_cases(scope);
                 z_choice.borrow().evaluate(scope);
 
                 scope.scope_stack.pop();
diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index 0b6e790..d6d235b 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -548,7 +548,15 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             };
         }
 
-        // TODO visit the default type
+        // visit the default case of the choice
+        if let Some(choice_default_ctx) = ctx.choiceDefault() {
+            match self.visit_choiceDefault(&choice_default_ctx) {
+                ZserioTreeReturnType::ChoiceCase(choice_case) => {
+                    choice.default_case = Option::from(choice_case)
+                }
+                _ => panic!("choice default type mismatch"),
+            };
+        }
 
         // Visit all functions defined for this choice.
         for function_ctx in ctx.functionDefinition_all() {
-- 
2.43.0


From a5da5cb856815c5b42d6299f83b39f9664c993fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 06/30] fix: avoid all rust keywords in generated module, field
 and function names

---
 .../src/internal/generator/types.rs           | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/types.rs b/crates/zserio-rs-build/src/internal/generator/types.rs
index 36dc097..0bd2106 100644
--- a/crates/zserio-rs-build/src/internal/generator/types.rs
+++ b/crates/zserio-rs-build/src/internal/generator/types.rs
@@ -25,7 +25,7 @@ impl TypeGenerator {
     }
 
     pub fn convert_field_name(name: &str) -> String {
-        remove_reserved_identifier(name).to_snake_case_with_nums_as_word()
+        to_rust_identifier(name)
     }
 
     pub fn ztype_to_rust_type(&mut self, ztype: &TypeReference) -> String {
@@ -52,7 +52,7 @@ impl TypeGenerator {
     }
 
     pub fn to_rust_module_name(name: &str) -> String {
-        remove_reserved_identifier(name).to_snake_case_with_nums_as_word()
+        to_rust_identifier(name)
     }
 
     pub fn to_rust_type_name(name: &str) -> String {
@@ -86,6 +86,20 @@ fn remove_reserved_identifier(name: &str) -> &str {
     }
 }
 
+/// Converts a zserio name to a snake case rust identifier which is not a keyword.
+fn to_rust_identifier(name: &str) -> String {
+    let identifier = remove_reserved_identifier(name).to_snake_case_with_nums_as_word();
+    match identifier.as_str() {
+        "abstract" | "as" | "async" | "await" | "become" | "box" | "break" | "const"
+        | "continue" | "crate" | "do" | "dyn" | "else" | "enum" | "extern" | "false" | "final"
+        | "fn" | "for" | "gen" | "if" | "impl" | "in" | "let" | "loop" | "macro" | "match"
+        | "mod" | "move" | "mut" | "override" | "priv" | "pub" | "ref" | "return" | "static"
+        | "super" | "trait" | "true" | "try" | "typeof" | "unsafe" | "unsized" | "use"
+        | "virtual" | "where" | "while" | "yield" => format!("z_{identifier}"),
+        _ => identifier,
+    }
+}
+
 /// Translates a zserio name to a rust constant name.
 pub fn to_rust_constant_name(name: &str) -> String {
     remove_reserved_identifier(name).to_ascii_uppercase()
@@ -101,7 +115,7 @@ pub fn convert_to_union_selector_name(field_name: &str) -> String {
 
 pub fn convert_to_function_name(name: &str) -> String {
     // Converts a function name from zserio style to rust style (snake case).
-    remove_reserved_identifier(name).to_snake_case_with_nums_as_word()
+    to_rust_identifier(name)
 }
 
 pub fn zserio_to_rust_type(name: &str) -> Result<String, &'static str> {
-- 
2.43.0


From 7361c927f48ff82958ee0e172191b68716ea39da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:16 +0000
Subject: [PATCH 07/30] fix: varint minimum value, varsize range and varuint
 overflow are handled without panics

---
 crates/zserio/src/ztype/varint_bitsize.rs | 10 ++++++----
 crates/zserio/src/ztype/varint_decode.rs  |  4 ++++
 crates/zserio/src/ztype/varint_encode.rs  |  2 +-
 crates/zserio/src/ztype/varuint_decode.rs |  9 +++++++--
 crates/zserio/src/ztype/varuint_encode.rs | 10 ++++++----
 5 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/crates/zserio/src/ztype/varint_bitsize.rs b/crates/zserio/src/ztype/varint_bitsize.rs
index bafd68f..46a2616 100644
--- a/crates/zserio/src/ztype/varint_bitsize.rs
+++ b/crates/zserio/src/ztype/varint_bitsize.rs
@@ -16,12 +16,14 @@ pub fn varint_bitsize(v: i64) -> Result<u8> {
     signed_bitsize(v, 9)
 }
 
-pub fn signed_bitsize(mut v: i64, max_bytes: u8) -> Result<u8> {
-    if v < 0 {
-        v = -v
+pub fn signed_bitsize(v: i64, max_bytes: u8) -> Result<u8> {
+    if v == i64::MIN && max_bytes == 9 {
+        // The minimum value of a varint is encoded as a negative zero.
+        return Ok(8);
     }
+    let v = v.unsigned_abs();
 
-    let mut max: i64 = (1 << 6) - 1;
+    let mut max: u64 = (1 << 6) - 1;
 
     let mut bytes = 1;
     loop {
diff --git a/crates/zserio/src/ztype/varint_decode.rs b/crates/zserio/src/ztype/varint_decode.rs
index 3dbd4fb..beba4cb 100644
--- a/crates/zserio/src/ztype/varint_decode.rs
+++ b/crates/zserio/src/ztype/varint_decode.rs
@@ -37,6 +37,10 @@ fn read_sized_int(reader: &mut BitReader, bit_length: u8) -> Result<i64> {
         value = (value << 8) | (b as i64);
     }
     if is_negative {
+        if value == 0 && bit_length == 9 {
+            // A negative zero encodes the minimum value of a varint.
+            return Ok(i64::MIN);
+        }
         value = -value;
     }
     Ok(value)
diff --git a/crates/zserio/src/ztype/varint_encode.rs b/crates/zserio/src/ztype/varint_encode.rs
index 8f590de..1b0c71f 100644
--- a/crates/zserio/src/ztype/varint_encode.rs
+++ b/crates/zserio/src/ztype/varint_encode.rs
@@ -19,7 +19,7 @@ pub fn write_varint(writer: &mut BitWriter, v: i64) -> Result<()> {
 }
 
 pub fn write_varint_type(writer: &mut BitWriter, v: i64, max_bytes: u8) -> Result<()> {
-    let abs_value = if v < 0 { -v as u64 } else { v as u64 };
+    let abs_value = v.unsigned_abs();
 
     let needed_bytes = signed_bitsize(v, max_bytes)? / 8;
 
diff --git a/crates/zserio/src/ztype/varuint_decode.rs b/crates/zserio/src/ztype/varuint_decode.rs
index e06d1c9..1c06cce 100644
--- a/crates/zserio/src/ztype/varuint_decode.rs
+++ b/crates/zserio/src/ztype/varuint_decode.rs
@@ -1,8 +1,13 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
+use crate::ztype::varuint_encode::MAX_VARSIZE;
 use bitreader::BitReader;
 
 pub fn read_varsize(reader: &mut BitReader) -> Result<u32> {
-    read_sized_uint(reader, 5).map(|v| v as u32)
+    let value = read_sized_uint(reader, 5)?;
+    if value > MAX_VARSIZE as u64 {
+        return Err(ZserioError::DataDoesNotFit);
+    }
+    Ok(value as u32)
 }
 
 pub fn read_varuint16(reader: &mut BitReader) -> Result<u16> {
diff --git a/crates/zserio/src/ztype/varuint_encode.rs b/crates/zserio/src/ztype/varuint_encode.rs
index e8d422b..fedef02 100644
--- a/crates/zserio/src/ztype/varuint_encode.rs
+++ b/crates/zserio/src/ztype/varuint_encode.rs
@@ -1,8 +1,8 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use crate::ztype::unsigned_bitsize;
 use rust_bitwriter::BitWriter;
 
-const MAX_VARSIZE: u32 = (1 << (2 + 7 + 7 + 7 + 8)) - 1;
+pub(crate) const MAX_VARSIZE: u32 = (1 << (2 + 7 + 7 + 7 + 8)) - 1;
 
 pub fn write_varuint16(writer: &mut BitWriter, v: u16) -> Result<()> {
     write_varuint_type(writer, v as u64, 2)
@@ -22,12 +22,14 @@ pub fn write_varuint(writer: &mut BitWriter, v: u64) -> Result<()> {
 
 // write_varsize writes a zserio varsize value to the bitstream.
 pub fn write_varsize(writer: &mut BitWriter, v: u32) -> Result<()> {
-    assert!(v <= MAX_VARSIZE);
+    if v > MAX_VARSIZE {
+        return Err(ZserioError::DataDoesNotFit);
+    }
     write_varuint_type(writer, v as u64, 5)
 }
 
 pub fn write_varuint_type(writer: &mut BitWriter, v: u64, max_bytes: u8) -> Result<()> {
-    let needed_bytes = unsigned_bitsize(v, max_bytes).unwrap() / 8;
+    let needed_bytes = unsigned_bitsize(v, max_bytes)? / 8;
 
     let needs_complete_bit_range = needed_bytes == max_bytes;
     for i in 0..needed_bytes {
-- 
2.43.0


From c37d80797b1a303b280d13c98d2a2b01274f4c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:53 +0000
Subject: [PATCH 08/30] fix: delta contexts of signed and 64 bit values cannot
 overflow, and truncated descriptors are reported

---
 .../src/ztype/array_traits/array_trait.rs     |  6 +++
 .../array_traits/bit_field_array_trait.rs     |  3 ++
 .../src/ztype/array_traits/delta_context.rs   | 49 +++++++++----------
 .../array_traits/varint16_array_trait.rs      |  3 ++
 .../array_traits/varint32_array_trait.rs      |  3 ++
 .../array_traits/varint64_array_trait.rs      |  3 ++
 .../ztype/array_traits/varint_array_trait.rs  |  3 ++
 7 files changed, 44 insertions(+), 26 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/array_trait.rs b/crates/zserio/src/ztype/array_traits/array_trait.rs
index 591a719..47a0d1e 100644
--- a/crates/zserio/src/ztype/array_traits/array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/array_trait.rs
@@ -14,6 +14,12 @@ pub trait ArrayTrait<T> {
     #[allow(clippy::wrong_self_convention)]
     fn from_u64(&self, value: u64) -> T;
 
+    // The numerical value of an element, which deltas are calculated from.
+    // Array traits for signed types must override it.
+    fn to_i128(&self, value: &T) -> i128 {
+        self.to_u64(value) as i128
+    }
+
     // all functions below are for using packed contexts. They provide a default implementation
     // for array traits using delta contexts.
     fn create_context(&self) -> PackingContextNode {
diff --git a/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs b/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs
index efd5a48..b9b2afa 100644
--- a/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs
@@ -42,6 +42,9 @@ impl array_trait::ArrayTrait<name> for BitFieldArrayTrait {
     fn to_u64(&self, value: &name) -> u64 {
         *value as u64
     }
+    fn to_i128(&self, value: &name) -> i128 {
+        *value as i128
+    }
     fn from_u64(&self, value: u64) -> name {
         value as name
     }
diff --git a/crates/zserio/src/ztype/array_traits/delta_context.rs b/crates/zserio/src/ztype/array_traits/delta_context.rs
index 1dfce53..c26387a 100644
--- a/crates/zserio/src/ztype/array_traits/delta_context.rs
+++ b/crates/zserio/src/ztype/array_traits/delta_context.rs
@@ -16,7 +16,7 @@ pub struct DeltaContext {
     unpacked_size: u64,
     first_element_size: u64,
     num_elements: u64,
-    previous_element: u64,
+    previous_element: i128,
     init_started: bool,
     processing_started: bool,
 }
@@ -47,19 +47,20 @@ impl DeltaContext {
 
         if !self.init_started {
             self.init_started = true;
-            self.previous_element = array_trait.to_u64(element);
+            self.previous_element = array_trait.to_i128(element);
             self.first_element_size = self.unpacked_size;
         } else if self.max_bit_number <= MAX_BIT_NUMBER_LIMIT {
             self.is_packed = true;
-            let delta = self.previous_element.abs_diff(array_trait.to_u64(element));
-            let max_bit_number = bit_length(delta);
+            let delta = self.previous_element.abs_diff(array_trait.to_i128(element));
+            // The difference of two 64 bit values always fits into an u64.
+            let max_bit_number = bit_length(delta as u64);
             if max_bit_number > self.max_bit_number {
                 self.max_bit_number = max_bit_number;
                 if self.max_bit_number > MAX_BIT_NUMBER_LIMIT {
                     self.is_packed = false;
                 }
             }
-            self.previous_element = array_trait.to_u64(element);
+            self.previous_element = array_trait.to_i128(element);
         }
         Ok(())
     }
@@ -95,7 +96,7 @@ impl DeltaContext {
     ) -> Result<()> {
         if !self.processing_started {
             self.processing_started = true;
-            self.read_descriptor(reader);
+            self.read_descriptor(reader)?;
             return self.read_unpacked(array_traits, reader, value);
         }
         if !self.is_packed {
@@ -103,9 +104,9 @@ impl DeltaContext {
         }
         if self.max_bit_number > 0 {
             let delta = read_signed_bits(reader, self.max_bit_number + 1)?;
-            self.previous_element = (self.previous_element as i64 + delta) as u64;
+            self.previous_element += delta as i128;
         }
-        *value = array_traits.from_u64(self.previous_element);
+        *value = array_traits.from_u64(self.previous_element as u64);
         Ok(())
     }
 
@@ -139,17 +140,17 @@ impl DeltaContext {
             self.processing_started = true;
             self.finish_init();
 
-            self.write_descriptor(writer);
+            self.write_descriptor(writer)?;
             return self.write_unpacked(array_traits, writer, element);
         }
         if !self.is_packed {
             return self.write_unpacked(array_traits, writer, element);
         }
         if self.max_bit_number > 0 {
-            let element_as_u64 = array_traits.to_u64(element);
-            let delta = element_as_u64 as i64 - self.previous_element as i64;
+            let element = array_traits.to_i128(element);
+            let delta = (element - self.previous_element) as i64;
             ztype::write_signed_bits(writer, delta, self.max_bit_number + 1)?;
-            self.previous_element = element_as_u64;
+            self.previous_element = element;
         }
         Ok(())
     }
@@ -162,14 +163,13 @@ impl DeltaContext {
         1
     }
 
-    fn read_descriptor(&mut self, reader: &mut BitReader) {
-        self.is_packed = reader
-            .read_bool()
-            .expect("failed to read if the context is packed");
+    fn read_descriptor(&mut self, reader: &mut BitReader) -> Result<()> {
+        self.is_packed = reader.read_bool()?;
         if self.is_packed {
             // read how many bits are used for the delta encoding of each element
-            self.max_bit_number = read_unsigned_bits(reader, MAX_BIT_NUMBER_BITS).unwrap() as u8;
+            self.max_bit_number = read_unsigned_bits(reader, MAX_BIT_NUMBER_BITS)? as u8;
         }
+        Ok(())
     }
 
     fn read_unpacked<T>(
@@ -179,18 +179,16 @@ impl DeltaContext {
         value: &mut T,
     ) -> Result<()> {
         array_traits.read(reader, value)?;
-        self.previous_element = array_traits.to_u64(value);
+        self.previous_element = array_traits.to_i128(value);
         Ok(())
     }
 
-    fn write_descriptor(&self, writer: &mut BitWriter) {
-        writer
-            .write_bool(self.is_packed)
-            .expect("failed to write bool");
+    fn write_descriptor(&self, writer: &mut BitWriter) -> Result<()> {
+        writer.write_bool(self.is_packed)?;
         if self.is_packed {
-            ztype::write_unsigned_bits(writer, self.max_bit_number as u64, MAX_BIT_NUMBER_BITS)
-                .unwrap();
+            ztype::write_unsigned_bits(writer, self.max_bit_number as u64, MAX_BIT_NUMBER_BITS)?;
         }
+        Ok(())
     }
 
     fn write_unpacked<T>(
@@ -199,8 +197,7 @@ impl DeltaContext {
         writer: &mut BitWriter,
         element: &T,
     ) -> Result<()> {
-        let element_as_u64 = array_traits.to_u64(element);
-        self.previous_element = element_as_u64;
+        self.previous_element = array_traits.to_i128(element);
         array_traits.write(writer, element)
     }
 
diff --git a/crates/zserio/src/ztype/array_traits/varint16_array_trait.rs b/crates/zserio/src/ztype/array_traits/varint16_array_trait.rs
index 2e9f35f..950c524 100644
--- a/crates/zserio/src/ztype/array_traits/varint16_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/varint16_array_trait.rs
@@ -36,6 +36,9 @@ impl array_trait::ArrayTrait<i16> for VarInt16ArrayTrait {
     fn to_u64(&self, value: &i16) -> u64 {
         *value as u64
     }
+    fn to_i128(&self, value: &i16) -> i128 {
+        *value as i128
+    }
     fn from_u64(&self, value: u64) -> i16 {
         value as i16
     }
diff --git a/crates/zserio/src/ztype/array_traits/varint32_array_trait.rs b/crates/zserio/src/ztype/array_traits/varint32_array_trait.rs
index 84a9fc2..c983c32 100644
--- a/crates/zserio/src/ztype/array_traits/varint32_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/varint32_array_trait.rs
@@ -36,6 +36,9 @@ impl array_trait::ArrayTrait<i32> for VarInt32ArrayTrait {
     fn to_u64(&self, value: &i32) -> u64 {
         *value as u64
     }
+    fn to_i128(&self, value: &i32) -> i128 {
+        *value as i128
+    }
     fn from_u64(&self, value: u64) -> i32 {
         value as i32
     }
diff --git a/crates/zserio/src/ztype/array_traits/varint64_array_trait.rs b/crates/zserio/src/ztype/array_traits/varint64_array_trait.rs
index f9b03c0..e342f0e 100644
--- a/crates/zserio/src/ztype/array_traits/varint64_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/varint64_array_trait.rs
@@ -36,6 +36,9 @@ impl array_trait::ArrayTrait<i64> for VarInt64ArrayTrait {
     fn to_u64(&self, value: &i64) -> u64 {
         *value as u64
     }
+    fn to_i128(&self, value: &i64) -> i128 {
+        *value as i128
+    }
     fn from_u64(&self, value: u64) -> i64 {
         value as i64
     }
diff --git a/crates/zserio/src/ztype/array_traits/varint_array_trait.rs b/crates/zserio/src/ztype/array_traits/varint_array_trait.rs
index 9d999ba..5735dc0 100644
--- a/crates/zserio/src/ztype/array_traits/varint_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/varint_array_trait.rs
@@ -36,6 +36,9 @@ impl array_trait::ArrayTrait<i64> for VarIntArrayTrait {
     fn to_u64(&self, value: &i64) -> u64 {
         *value as u64
     }
+    fn to_i128(&self, value: &i64) -> i128 {
+        *value as i128
+    }
     fn from_u64(&self, value: u64) -> i64 {
         value as i64
     }
-- 
2.43.0


From f68b4270f627fe286b7d5a97966828aaf4bd1b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:20 +0000
Subject: [PATCH 09/30] fix: packed arrays of bool, float, string, bytes and
 extern elements use the plain encoding

---
 .../array_traits/bit_buffer_array_trait.rs    | 44 ++++++----------
 .../ztype/array_traits/boolean_array_trait.rs | 42 ++++++---------
 .../array_traits/byte_buffer_array_trait.rs   | 44 ++++++----------
 .../ztype/array_traits/float16_array_trait.rs | 42 ++++++---------
 .../ztype/array_traits/float32_array_trait.rs | 42 ++++++---------
 .../ztype/array_traits/float64_array_trait.rs | 42 ++++++---------
 .../ztype/array_traits/string_array_trait.rs  | 51 ++++++++-----------
 7 files changed, 114 insertions(+), 193 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs b/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs
index cc48a22..3301b64 100644
--- a/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs
@@ -40,65 +40,53 @@ impl array_trait::ArrayTrait<ztype::ExternType> for BitBufferArrayTrait {
         panic!("delta-encoding not supported for extern types");
     }
 
+    // This type is never delta-packed, even in packed arrays.
+    fn create_context(&self) -> PackingContextNode {
+        PackingContextNode::new()
+    }
+
     fn init_context(
         &self,
-        context_node: &mut PackingContextNode,
-        element: &ztype::ExternType,
+        _context_node: &mut PackingContextNode,
+        _element: &ztype::ExternType,
     ) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+        Ok(())
     }
 
     fn bitsize_of_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &ztype::ExternType,
     ) -> Result<u64> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .bitsize_of(self, bit_position, element)
+        self.bitsize_of(bit_position, element)
     }
 
     fn initialize_offsets_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &ztype::ExternType,
     ) -> Result<u64> {
-        Ok(bit_position
-            + context_node
-                .context
-                .as_mut()
-                .unwrap()
-                .bitsize_of(self, bit_position, element)?)
+        self.initialize_offsets(bit_position, element)
     }
 
     fn read_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         reader: &mut BitReader,
         value: &mut ztype::ExternType,
         _index: usize,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .read(self, reader, value)
+        self.read(reader, value)
     }
 
     fn write_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         writer: &mut BitWriter,
         element: &ztype::ExternType,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .write(self, writer, element)
+        self.write(writer, element)
     }
 }
diff --git a/crates/zserio/src/ztype/array_traits/boolean_array_trait.rs b/crates/zserio/src/ztype/array_traits/boolean_array_trait.rs
index 53195bf..91ffebe 100644
--- a/crates/zserio/src/ztype/array_traits/boolean_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/boolean_array_trait.rs
@@ -39,61 +39,49 @@ impl array_trait::ArrayTrait<bool> for BooleanArrayTrait {
         false // delta-encoding not supported for bool arrays
     }
 
-    fn init_context(&self, context_node: &mut PackingContextNode, element: &bool) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+    // This type is never delta-packed, even in packed arrays.
+    fn create_context(&self) -> PackingContextNode {
+        PackingContextNode::new()
+    }
+
+    fn init_context(&self, _context_node: &mut PackingContextNode, _element: &bool) -> Result<()> {
+        Ok(())
     }
 
     fn bitsize_of_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &bool,
     ) -> Result<u64> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .bitsize_of(self, bit_position, element)
+        self.bitsize_of(bit_position, element)
     }
 
     fn initialize_offsets_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &bool,
     ) -> Result<u64> {
-        Ok(bit_position
-            + context_node
-                .context
-                .as_mut()
-                .unwrap()
-                .bitsize_of(self, bit_position, element)?)
+        self.initialize_offsets(bit_position, element)
     }
 
     fn read_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         reader: &mut BitReader,
         value: &mut bool,
         _index: usize,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .read(self, reader, value)
+        self.read(reader, value)
     }
 
     fn write_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         writer: &mut BitWriter,
         element: &bool,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .write(self, writer, element)
+        self.write(writer, element)
     }
 }
diff --git a/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs b/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs
index 33ed52d..8a58e24 100644
--- a/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs
@@ -40,65 +40,53 @@ impl array_trait::ArrayTrait<ztype::BytesType> for ByteBufferArrayTrait {
         panic!("delta-encoding not supported for extern types");
     }
 
+    // This type is never delta-packed, even in packed arrays.
+    fn create_context(&self) -> PackingContextNode {
+        PackingContextNode::new()
+    }
+
     fn init_context(
         &self,
-        context_node: &mut PackingContextNode,
-        element: &ztype::BytesType,
+        _context_node: &mut PackingContextNode,
+        _element: &ztype::BytesType,
     ) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+        Ok(())
     }
 
     fn bitsize_of_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &ztype::BytesType,
     ) -> Result<u64> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .bitsize_of(self, bit_position, element)
+        self.bitsize_of(bit_position, element)
     }
 
     fn initialize_offsets_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &ztype::BytesType,
     ) -> Result<u64> {
-        Ok(bit_position
-            + context_node
-                .context
-                .as_mut()
-                .unwrap()
-                .bitsize_of(self, bit_position, element)?)
+        self.initialize_offsets(bit_position, element)
     }
 
     fn read_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         reader: &mut BitReader,
         value: &mut ztype::BytesType,
         _index: usize,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .read(self, reader, value)
+        self.read(reader, value)
     }
 
     fn write_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         writer: &mut BitWriter,
         element: &ztype::BytesType,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .write(self, writer, element)
+        self.write(writer, element)
     }
 }
diff --git a/crates/zserio/src/ztype/array_traits/float16_array_trait.rs b/crates/zserio/src/ztype/array_traits/float16_array_trait.rs
index 1a0be5e..6bfef68 100644
--- a/crates/zserio/src/ztype/array_traits/float16_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/float16_array_trait.rs
@@ -40,61 +40,49 @@ impl array_trait::ArrayTrait<f32> for Float16ArrayTrait {
         0.0 // delta-encoding not supported for float arrays
     }
 
-    fn init_context(&self, context_node: &mut PackingContextNode, element: &f32) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+    // This type is never delta-packed, even in packed arrays.
+    fn create_context(&self) -> PackingContextNode {
+        PackingContextNode::new()
+    }
+
+    fn init_context(&self, _context_node: &mut PackingContextNode, _element: &f32) -> Result<()> {
+        Ok(())
     }
 
     fn bitsize_of_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &f32,
     ) -> Result<u64> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .bitsize_of(self, bit_position, element)
+        self.bitsize_of(bit_position, element)
     }
 
     fn initialize_offsets_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &f32,
     ) -> Result<u64> {
-        Ok(bit_position
-            + context_node
-                .context
-                .as_mut()
-                .unwrap()
-                .bitsize_of(self, bit_position, element)?)
+        self.initialize_offsets(bit_position, element)
     }
 
     fn read_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         reader: &mut BitReader,
         value: &mut f32,
         _index: usize,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .read(self, reader, value)
+        self.read(reader, value)
     }
 
     fn write_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         writer: &mut BitWriter,
         element: &f32,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .write(self, writer, element)
+        self.write(writer, element)
     }
 }
diff --git a/crates/zserio/src/ztype/array_traits/float32_array_trait.rs b/crates/zserio/src/ztype/array_traits/float32_array_trait.rs
index 2364119..9129b77 100644
--- a/crates/zserio/src/ztype/array_traits/float32_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/float32_array_trait.rs
@@ -40,61 +40,49 @@ impl array_trait::ArrayTrait<f32> for Float32ArrayTrait {
         0.0 // delta-encoding not supported for float arrays
     }
 
-    fn init_context(&self, context_node: &mut PackingContextNode, element: &f32) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+    // This type is never delta-packed, even in packed arrays.
+    fn create_context(&self) -> PackingContextNode {
+        PackingContextNode::new()
+    }
+
+    fn init_context(&self, _context_node: &mut PackingContextNode, _element: &f32) -> Result<()> {
+        Ok(())
     }
 
     fn bitsize_of_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &f32,
     ) -> Result<u64> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .bitsize_of(self, bit_position, element)
+        self.bitsize_of(bit_position, element)
     }
 
     fn initialize_offsets_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &f32,
     ) -> Result<u64> {
-        Ok(bit_position
-            + context_node
-                .context
-                .as_mut()
-                .unwrap()
-                .bitsize_of(self, bit_position, element)?)
+        self.initialize_offsets(bit_position, element)
     }
 
     fn read_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         reader: &mut BitReader,
         value: &mut f32,
         _index: usize,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .read(self, reader, value)
+        self.read(reader, value)
     }
 
     fn write_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         writer: &mut BitWriter,
         element: &f32,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .write(self, writer, element)
+        self.write(writer, element)
     }
 }
diff --git a/crates/zserio/src/ztype/array_traits/float64_array_trait.rs b/crates/zserio/src/ztype/array_traits/float64_array_trait.rs
index 79088b9..366c20b 100644
--- a/crates/zserio/src/ztype/array_traits/float64_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/float64_array_trait.rs
@@ -40,61 +40,49 @@ impl array_trait::ArrayTrait<f64> for Float64ArrayTrait {
         0.0 // delta-encoding not supported for float arrays
     }
 
-    fn init_context(&self, context_node: &mut PackingContextNode, element: &f64) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+    // This type is never delta-packed, even in packed arrays.
+    fn create_context(&self) -> PackingContextNode {
+        PackingContextNode::new()
+    }
+
+    fn init_context(&self, _context_node: &mut PackingContextNode, _element: &f64) -> Result<()> {
+        Ok(())
     }
 
     fn bitsize_of_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &f64,
     ) -> Result<u64> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .bitsize_of(self, bit_position, element)
+        self.bitsize_of(bit_position, element)
     }
 
     fn initialize_offsets_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &f64,
     ) -> Result<u64> {
-        Ok(bit_position
-            + context_node
-                .context
-                .as_mut()
-                .unwrap()
-                .bitsize_of(self, bit_position, element)?)
+        self.initialize_offsets(bit_position, element)
     }
 
     fn read_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         reader: &mut BitReader,
         value: &mut f64,
         _index: usize,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .read(self, reader, value)
+        self.read(reader, value)
     }
 
     fn write_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         writer: &mut BitWriter,
         element: &f64,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .write(self, writer, element)
+        self.write(writer, element)
     }
 }
diff --git a/crates/zserio/src/ztype/array_traits/string_array_trait.rs b/crates/zserio/src/ztype/array_traits/string_array_trait.rs
index c6634a6..fb9a4a4 100644
--- a/crates/zserio/src/ztype/array_traits/string_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/string_array_trait.rs
@@ -1,8 +1,8 @@
 use crate::error::Result;
 use crate::ztype::array_traits::array_trait;
 use crate::ztype::array_traits::packing_context_node::PackingContextNode;
+use crate::ztype::bitsize_string;
 use crate::ztype::read_string;
-use crate::ztype::varsize_bitsize;
 use crate::ztype::write_string;
 use bitreader::BitReader;
 use rust_bitwriter::BitWriter;
@@ -19,7 +19,7 @@ impl array_trait::ArrayTrait<String> for StringArrayTrait {
     }
 
     fn bitsize_of(&self, _bit_position: u64, value: &String) -> Result<u64> {
-        Ok(value.len() as u64 + varsize_bitsize(value.len() as u32)? as u64)
+        bitsize_string(value)
     }
 
     fn initialize_offsets(&self, bit_position: u64, value: &String) -> Result<u64> {
@@ -42,60 +42,53 @@ impl array_trait::ArrayTrait<String> for StringArrayTrait {
         "".into() // not supported for strings
     }
 
-    fn init_context(&self, context_node: &mut PackingContextNode, element: &String) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+    // This type is never delta-packed, even in packed arrays.
+    fn create_context(&self) -> PackingContextNode {
+        PackingContextNode::new()
+    }
+
+    fn init_context(
+        &self,
+        _context_node: &mut PackingContextNode,
+        _element: &String,
+    ) -> Result<()> {
+        Ok(())
     }
 
     fn bitsize_of_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &String,
     ) -> Result<u64> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .bitsize_of(self, bit_position, element)
+        self.bitsize_of(bit_position, element)
     }
+
     fn initialize_offsets_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &String,
     ) -> Result<u64> {
-        Ok(bit_position
-            + context_node
-                .context
-                .as_mut()
-                .unwrap()
-                .bitsize_of(self, bit_position, element)?)
+        self.initialize_offsets(bit_position, element)
     }
 
     fn read_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         reader: &mut BitReader,
         value: &mut String,
         _index: usize,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .read(self, reader, value)
+        self.read(reader, value)
     }
 
     fn write_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         writer: &mut BitWriter,
         element: &String,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .write(self, writer, element)
+        self.write(writer, element)
     }
 }
-- 
2.43.0


From 94d68db24cc6a4803664eeea0501546845509d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 10/30] fix: integers that do not fit into their bit width are
 refused instead of truncated

---
 crates/zserio/src/ztype/bits_decode.rs |  6 +++---
 crates/zserio/src/ztype/bits_encode.rs | 15 ++++++++++-----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/crates/zserio/src/ztype/bits_decode.rs b/crates/zserio/src/ztype/bits_decode.rs
index 9870e3d..1874d8c 100644
--- a/crates/zserio/src/ztype/bits_decode.rs
+++ b/crates/zserio/src/ztype/bits_decode.rs
@@ -1,16 +1,16 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use bitreader::BitReader;
 
 pub fn read_unsigned_bits(reader: &mut BitReader, bits: u8) -> Result<u64> {
     if bits > 64 {
-        panic! {"cannot read more than 64 bits"};
+        return Err(ZserioError::DataDoesNotFit);
     }
     Ok(reader.read_u64(bits)?)
 }
 
 pub fn read_signed_bits(reader: &mut BitReader, bits: u8) -> Result<i64> {
     if bits > 64 {
-        panic! {"cannot read more than 64 bits"};
+        return Err(ZserioError::DataDoesNotFit);
     }
     Ok(reader.read_i64(bits)?)
 }
diff --git a/crates/zserio/src/ztype/bits_encode.rs b/crates/zserio/src/ztype/bits_encode.rs
index 537ffc6..07ef63f 100644
--- a/crates/zserio/src/ztype/bits_encode.rs
+++ b/crates/zserio/src/ztype/bits_encode.rs
@@ -1,16 +1,21 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use rust_bitwriter::BitWriter;
 
 pub fn write_unsigned_bits(writer: &mut BitWriter, v: u64, bits: u8) -> Result<()> {
-    if bits > 64 {
-        panic! {"cannot write more than 64 bits"};
+    if bits > 64 || (bits < 64 && v >> bits != 0) {
+        return Err(ZserioError::DataDoesNotFit);
     }
     Ok(writer.write_u64(v, bits)?)
 }
 
 pub fn write_signed_bits(writer: &mut BitWriter, v: i64, bits: u8) -> Result<()> {
-    if bits > 64 {
-        panic! {"cannot write more than 64 bits"};
+    let sign_bits = match bits {
+        0 => v,
+        1..=64 => v >> (bits - 1),
+        _ => return Err(ZserioError::DataDoesNotFit),
+    };
+    if sign_bits != 0 && (sign_bits != -1 || bits == 0) {
+        return Err(ZserioError::DataDoesNotFit);
     }
     Ok(writer.write_i64(v, bits)?)
 }
-- 
2.43.0


From cd06c39422282a42cd6b2e7788ce12c27d219738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 11/30] fix: oversized strings and arrays, truncated string
 lengths and bit position 0 are handled without panics

---
 crates/zserio/src/ztype/array.rs         | 20 +++++++++++++++-----
 crates/zserio/src/ztype/bit_alignment.rs |  2 +-
 crates/zserio/src/ztype/string_decode.rs |  2 +-
 crates/zserio/src/ztype/string_encode.rs |  5 +++--
 4 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/crates/zserio/src/ztype/array.rs b/crates/zserio/src/ztype/array.rs
index f9de41c..e2527d1 100644
--- a/crates/zserio/src/ztype/array.rs
+++ b/crates/zserio/src/ztype/array.rs
@@ -1,4 +1,4 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use crate::ztype::array_traits::array_trait::ArrayTrait;
 use crate::ztype::read_varsize;
 use crate::ztype::varsize_bitsize;
@@ -57,10 +57,16 @@ impl<T> Array<T> {
     ) -> Result<()> {
         if let Some(expected_array_len) = self.fixed_size {
             // for fixed-size arrays, the provided length must match
-            assert_eq!(expected_array_len, data.len());
+            if expected_array_len != data.len() {
+                return Err(ZserioError::DataError(format!(
+                    "expected an array of {} elements, but got {}",
+                    expected_array_len,
+                    data.len()
+                )));
+            }
         } else {
             // for auto arrays, write the length of the array
-            write_varsize(writer, data.len() as u32)?;
+            write_varsize(writer, array_length_as_varsize(data.len())?)?;
         }
 
         if data.is_empty() {
@@ -171,7 +177,7 @@ impl<T> Array<T> {
     ) -> Result<u64> {
         let mut end_position = bit_position;
         if self.fixed_size.is_none() {
-            end_position += varsize_bitsize(data.len() as u32)? as u64;
+            end_position += varsize_bitsize(array_length_as_varsize(data.len())?)? as u64;
         }
         if !data.is_empty() {
             if self.is_packed {
@@ -222,7 +228,7 @@ impl<T> Array<T> {
     ) -> Result<u64> {
         let mut end_position = bit_position;
         if self.fixed_size.is_none() {
-            end_position += varsize_bitsize(data.len() as u32)? as u64;
+            end_position += varsize_bitsize(array_length_as_varsize(data.len())?)? as u64;
         }
         if !data.is_empty() {
             let mut packing_context_node = self.array_trait.create_context();
@@ -245,6 +251,10 @@ impl<T> Array<T> {
     }
 }
 
+fn array_length_as_varsize(len: usize) -> Result<u32> {
+    u32::try_from(len).or(Err(ZserioError::DataDoesNotFit))
+}
+
 fn align_array_element_writer<T: OffsetTrait>(
     writer: &mut BitWriter,
     _index: usize,
diff --git a/crates/zserio/src/ztype/bit_alignment.rs b/crates/zserio/src/ztype/bit_alignment.rs
index 6ff9de4..a28f82d 100644
--- a/crates/zserio/src/ztype/bit_alignment.rs
+++ b/crates/zserio/src/ztype/bit_alignment.rs
@@ -7,7 +7,7 @@
 /// let bitcount = align_to(8, 15); // returns 16
 /// ```
 pub fn align_to(align_to_bitcount: u8, bit_position: u64) -> u64 {
-    (((bit_position - 1) / align_to_bitcount as u64) + 1) * align_to_bitcount as u64
+    bit_position.next_multiple_of(align_to_bitcount as u64)
 }
 
 #[cfg(test)]
diff --git a/crates/zserio/src/ztype/string_decode.rs b/crates/zserio/src/ztype/string_decode.rs
index 438d3a0..7b668a3 100644
--- a/crates/zserio/src/ztype/string_decode.rs
+++ b/crates/zserio/src/ztype/string_decode.rs
@@ -7,7 +7,7 @@ use crate::ztype::varuint_decode::read_varsize;
 
 pub fn read_string(reader: &mut BitReader) -> Result<String> {
     // zserio first writes the string length as a varsize uint
-    let str_len = read_varsize(reader).map(|v| v as usize).unwrap();
+    let str_len = read_varsize(reader).map(|v| v as usize)?;
 
     if reader.remaining() < (str_len as u64 * 8) {
         return Err(ZserioError::IoError(std::io::Error::new(
diff --git a/crates/zserio/src/ztype/string_encode.rs b/crates/zserio/src/ztype/string_encode.rs
index 65b3346..175cd37 100644
--- a/crates/zserio/src/ztype/string_encode.rs
+++ b/crates/zserio/src/ztype/string_encode.rs
@@ -1,6 +1,6 @@
 use rust_bitwriter::BitWriter;
 
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use crate::ztype::unsigned_bitsize;
 
 use super::varuint_encode::write_varsize;
@@ -8,7 +8,8 @@ use super::varuint_encode::write_varsize;
 pub fn write_string(writer: &mut BitWriter, s: &str) -> Result<()> {
     let string_bytes = s.as_bytes();
 
-    write_varsize(writer, string_bytes.len() as u32)?;
+    let len = u32::try_from(string_bytes.len()).or(Err(ZserioError::DataDoesNotFit))?;
+    write_varsize(writer, len)?;
 
     for string_byte in string_bytes {
         writer.write_u8(*string_byte, 8)?;
-- 
2.43.0


From c44b03b1269a4ca3725776b8a3da39c10d7908c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 12/30] fix: extern and bytes values are checked against their
 declared size, and truncation is reported

---
 crates/zserio/src/ztype/bytes_type.rs  |  6 ++++++
 crates/zserio/src/ztype/extern_type.rs | 13 +++++++------
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/zserio/src/ztype/bytes_type.rs b/crates/zserio/src/ztype/bytes_type.rs
index c7d2b85..a46cd8e 100644
--- a/crates/zserio/src/ztype/bytes_type.rs
+++ b/crates/zserio/src/ztype/bytes_type.rs
@@ -2,6 +2,7 @@ use crate::error::Result;
 use crate::ztype::reader::read_bytes;
 use crate::ztype::writer::write_bytes;
 use crate::ztype::{read_varsize, varsize_bitsize, write_varsize};
+use crate::ZserioError;
 use bitreader::BitReader;
 use rust_bitwriter::BitWriter;
 
@@ -22,6 +23,11 @@ pub fn read_bytes_type(bit_reader: &mut BitReader) -> Result<BytesType> {
 
 /// Writes a zserio bytes type to a bitstream.
 pub fn write_bytes_type(bit_writer: &mut BitWriter, bytes_type: &BytesType) -> Result<()> {
+    if bytes_type.data_blob.len() != bytes_type.byte_size as usize {
+        return Err(ZserioError::DataError(
+            "bytes size does not match the size of its data".into(),
+        ));
+    }
     write_varsize(bit_writer, bytes_type.byte_size)?;
     write_bytes(bit_writer, &bytes_type.data_blob)?;
     Ok(())
diff --git a/crates/zserio/src/ztype/extern_type.rs b/crates/zserio/src/ztype/extern_type.rs
index d04ac91..9cdbb6d 100644
--- a/crates/zserio/src/ztype/extern_type.rs
+++ b/crates/zserio/src/ztype/extern_type.rs
@@ -40,9 +40,7 @@ pub fn read_extern_type(bit_reader: &mut BitReader) -> Result<ExternType> {
 
     let mut extern_bytes = read_bytes(bit_reader, num_of_full_bytes)?;
     if remaining_bits != 0 {
-        let mut last_byte = bit_reader
-            .read_u8(remaining_bits)
-            .expect("failed to read last bits");
+        let mut last_byte = bit_reader.read_u8(remaining_bits)?;
         let bit_shift = 8 - remaining_bits;
         last_byte <<= bit_shift;
         extern_bytes.push(last_byte);
@@ -55,6 +53,11 @@ pub fn read_extern_type(bit_reader: &mut BitReader) -> Result<ExternType> {
 
 /// Writes a zserio extern type to a bitstream.
 pub fn write_extern_type(bit_writer: &mut BitWriter, extern_type: &ExternType) -> Result<()> {
+    if extern_type.data_blob.len() != extern_type.bit_size.div_ceil(8) as usize {
+        return Err(ZserioError::DataError(
+            "extern bit size does not match the size of its data".into(),
+        ));
+    }
     write_varsize(bit_writer, extern_type.bit_size)?;
     let num_of_full_bytes = (extern_type.bit_size / 8) as usize;
     let remaining_bits = (extern_type.bit_size % 8) as u8;
@@ -63,9 +66,7 @@ pub fn write_extern_type(bit_writer: &mut BitWriter, extern_type: &ExternType) -
         &extern_type.data_blob[0..num_of_full_bytes].to_vec(),
     )?;
     if remaining_bits != 0 {
-        let mut last_byte = *extern_type.data_blob.last().ok_or(ZserioError::DataError(
-            "last byte for extern is missing".into(),
-        ))?;
+        let mut last_byte = extern_type.data_blob[num_of_full_bytes];
         let bit_shift = 8 - remaining_bits;
         last_byte >>= bit_shift;
 
-- 
2.43.0


From 85f1b6ec236ae2e464ddb1af77b3bd3ed066bdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:13 +0000
Subject: [PATCH 13/30] fix: bit sizes of extern, bytes, dynamic and packed
 integer fields match the written data

---
 .../src/internal/generator/bitsize.rs         | 43 ++++++++++---------
 .../src/internal/generator/encode.rs          | 39 ++++++++++-------
 2 files changed, 47 insertions(+), 35 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index 7771ade..9be9b16 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -1,6 +1,6 @@
 use crate::internal::compiler::fundamental_type::FundamentalZserioTypeReference;
 use crate::internal::compiler::symbol_scope::ModelScope;
-use crate::internal::generator::encode::requires_borrowing;
+use crate::internal::generator::encode::{generate_bit_length, requires_borrowing};
 use crate::internal::generator::expression::{generate_boolean_expression, generate_expression};
 use crate::internal::generator::index_offsets::extract_indexed_offset_expression;
 use crate::internal::generator::packed_contexts::FieldDetails;
@@ -23,13 +23,13 @@ pub fn bitsize_type_reference(
         if packed {
             // Use packed bitsize
             function.line(format!(
-                "end_position += {}.zserio_bitsize_packed(&mut context_node.children[{}], end_position).unwrap();",
+                "end_position += {}.zserio_bitsize_packed(&mut context_node.children[{}], end_position)?;",
                 field_name,
                 field_index,
             ));
         } else {
             function.line(format!(
-                "end_position += {}.zserio_bitsize(end_position).unwrap();",
+                "end_position += {}.zserio_bitsize(end_position)?;",
                 field_name
             ));
         }
@@ -37,21 +37,22 @@ pub fn bitsize_type_reference(
         if type_reference.name == "string" {
             // string types
             function.line(format!(
-                "end_position += ztype::bitsize_string({}.as_str()).unwrap();",
+                "end_position += ztype::bitsize_string({}.as_str())?;",
                 field_name
             ));
         } else if type_reference.name == "extern" {
-            function.line(format!("end_position += {}.bit_size as u64;", field_name));
+            function.line(format!(
+                "end_position += ztype::bitsize_of_extern(&{});",
+                field_name
+            ));
         } else if type_reference.name == "bytes" {
             function.line(format!(
-                "end_position += ({}.byte_size as u64) * 8;",
+                "end_position += ztype::bitsize_of_bytes(&{});",
                 field_name
             ));
         } else if type_reference.name == "bool" {
             // boolean
             function.line("end_position += 1;");
-        } else if type_reference.bits != 0 {
-            function.line(format!("end_position += {};", type_reference.bits));
         } else if packed {
             // packed bitsize
             function.line(format!(
@@ -60,6 +61,11 @@ pub fn bitsize_type_reference(
                 initialize_array_trait(scope, type_generator, type_reference),
                 field_name,
             ));
+        } else if type_reference.bits != 0 || type_reference.length_expression.is_some() {
+            function.line(format!(
+                "end_position += {} as u64;",
+                generate_bit_length(scope, type_generator, type_reference)
+            ));
         } else {
             let bit_length = match type_reference.name.as_str() {
                 "uint8" => String::from("8"),
@@ -74,34 +80,31 @@ pub fn bitsize_type_reference(
                 "float32" => String::from("32"),
                 "float64" => String::from("64"),
                 "varint" => {
-                    format!("ztype::varint_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint_bitsize({})? as u64", field_name)
                 }
                 "varint16" => {
-                    format!("ztype::varint16_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint16_bitsize({})? as u64", field_name)
                 }
                 "varint32" => {
-                    format!("ztype::varint32_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint32_bitsize({})? as u64", field_name)
                 }
                 "varint64" => {
-                    format!("ztype::varint64_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint64_bitsize({})? as u64", field_name)
                 }
                 "varuint" => {
-                    format!("ztype::varuint_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint_bitsize({})? as u64", field_name)
                 }
                 "varuint16" => {
-                    format!("ztype::varuint16_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint16_bitsize({})? as u64", field_name)
                 }
                 "varuint32" => {
-                    format!("ztype::varuint32_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint32_bitsize({})? as u64", field_name)
                 }
                 "varuint64" => {
-                    format!("ztype::varuint64_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint64_bitsize({})? as u64", field_name)
                 }
                 "varsize" => {
-                    format!("ztype::varsize_bitsize({}).unwrap() as u64", field_name)
-                }
-                "int" | "bit" => {
-                    format!("{} as u64", type_reference.bits)
+                    format!("ztype::varsize_bitsize({})? as u64", field_name)
                 }
                 _ => panic!("failed"),
             };
diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index 6075b23..3143069 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -1,4 +1,5 @@
 use crate::internal::ast::field::Field;
+use crate::internal::ast::type_reference::TypeReference;
 use crate::internal::compiler::fundamental_type::FundamentalZserioTypeReference;
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::array::initialize_array_trait;
@@ -63,21 +64,7 @@ pub fn encode_type(
                 field_name,
             ));
         } else if fund_type.bits != 0 || fund_type.length_expression.is_some() {
-            let bit_length_string = match &fund_type.length_expression {
-                Some(bit_length_expression) => {
-                    let mut length_expression_string =
-                        generate_expression(&bit_length_expression.borrow(), type_generator, scope);
-                    // check if there is a typecast needed
-                    if let Some(native_type) = &bit_length_expression.borrow().native_type {
-                        if native_type.name != "uint8" {
-                            length_expression_string =
-                                format!("({}) as u8", length_expression_string);
-                        }
-                    }
-                    length_expression_string
-                }
-                None => format!("{}", fund_type.bits),
-            };
+            let bit_length_string = generate_bit_length(scope, type_generator, fund_type);
             if fund_type.name == "int" {
                 function.line(format!(
                     "ztype::write_signed_bits(writer, {}, {})?;",
@@ -101,6 +88,28 @@ pub fn encode_type(
     }
 }
 
+/// Generates the width of an integer type with a fixed or dynamic number of bits.
+pub fn generate_bit_length(
+    scope: &ModelScope,
+    type_generator: &mut TypeGenerator,
+    zserio_type: &TypeReference,
+) -> String {
+    match &zserio_type.length_expression {
+        Some(bit_length_expression) => {
+            let mut length_expression_string =
+                generate_expression(&bit_length_expression.borrow(), type_generator, scope);
+            // check if there is a typecast needed
+            if let Some(native_type) = &bit_length_expression.borrow().native_type {
+                if native_type.name != "uint8" {
+                    length_expression_string = format!("({}) as u8", length_expression_string);
+                }
+            }
+            length_expression_string
+        }
+        None => format!("{}", zserio_type.bits),
+    }
+}
+
 /// Decides if a type needs to be passed as a reference, or by copy.
 /// Returns true if the type should be passed by reference, otherwise false.
 pub fn requires_borrowing(field: &Field, native_type: &FundamentalZserioTypeReference) -> bool {
-- 
2.43.0


From a93456aaa62a1697d06e86e450de9bd4ab753caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:18 +0000
Subject: [PATCH 14/30] fix: decoding an absent optional field clears a
 previously set value

---
 crates/zserio-rs-build/src/internal/generator/decode.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index 473e0f7..9c8e94b 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -394,6 +394,11 @@ pub fn decode_field(
             "self.{} = Option::from(optional_value);",
             TypeGenerator::convert_field_name(&field.name)
         ));
+        function.line("} else {");
+        function.line(format!(
+            "self.{} = None;",
+            TypeGenerator::convert_field_name(&field.name)
+        ));
         function.line("}"); // close the "if present {"
     }
 
-- 
2.43.0


From a761130c3035d0f8dfc3a7b5d256104c73bc3a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:27 +0000
Subject: [PATCH 15/30] fix: unions in packed arrays write their selector and
 use their own contexts, invalid selectors are errors

---
 .../src/internal/generator/zunion.rs          | 57 ++++++++++++++++---
 1 file changed, 49 insertions(+), 8 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zunion.rs b/crates/zserio-rs-build/src/internal/generator/zunion.rs
index 723482e..22cf8c0 100644
--- a/crates/zserio-rs-build/src/internal/generator/zunion.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zunion.rs
@@ -5,13 +5,19 @@ use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::array::instantiate_zserio_array;
 use crate::internal::generator::{
     bitsize::bitsize_field, decode::decode_field, encode::encode_field,
-    file_generator::write_to_file, function::generate_function, packed_contexts::FieldDetails,
+    file_generator::write_to_file, function::generate_function,
+    packed_contexts::generate_init_packed_context_for_field,
+    packed_contexts::generate_packed_context_for_field, packed_contexts::FieldDetails,
     preamble::add_standard_imports, types::convert_to_union_selector_name, types::TypeGenerator,
 };
 use codegen::{Function, Scope, Struct};
 
 use std::path::Path;
 
+// The delta context of the union selector, and the array trait used for it.
+const SELECTOR_CONTEXT: &str = "context_node.children[0].context.as_mut().unwrap()";
+const SELECTOR_ARRAY_TRAIT: &str = "ztype::array_traits::VarSizeArrayTrait {}";
+
 pub fn generate_struct_member_for_field(
     type_generator: &mut TypeGenerator,
     gen_struct: &mut Struct,
@@ -70,18 +76,21 @@ pub fn generate_union(
     let union_selector_impl_gen_scope = codegen_scope.new_impl(&selector_type_name);
     let union_selector_from_fn_scope = union_selector_impl_gen_scope.new_fn("from_u32");
     union_selector_from_fn_scope.arg("value", "u32");
-    union_selector_from_fn_scope.ret(&selector_type_name);
+    union_selector_from_fn_scope.ret(format!("Result<{selector_type_name}>"));
     union_selector_from_fn_scope.vis("pub");
     union_selector_from_fn_scope.line("match value {");
     for (field_index, field) in zunion.fields.iter().enumerate() {
         let selector_union_name = convert_to_union_selector_name(&field.borrow().name);
         union_selector_from_fn_scope.line(format!(
-            "{} => {}::{},",
+            "{} => Ok({}::{}),",
             field_index, selector_type_name, selector_union_name
         ));
     }
 
-    union_selector_from_fn_scope.line("_ => panic!(\"unsupported value\"),");
+    union_selector_from_fn_scope.line(format!(
+        "_ => Err(zserio::ZserioError::DataError(\"invalid selector of union {}\".into())),",
+        zunion.name
+    ));
     union_selector_from_fn_scope.line("}");
 
     // generate the union itself
@@ -127,11 +136,31 @@ pub fn generate_union(
     // Generate the packed contexts.
     let create_packing_context_fn = union_impl.new_fn("zserio_create_packing_context");
     create_packing_context_fn.arg("context_node", "&mut PackingContextNode");
+    // The first context is the one of the selector, followed by the ones of the fields.
+    create_packing_context_fn.line("context_node.children.push(PackingContextNode { children: vec![], context: Some(DeltaContext::new()), });");
+    for (field_index, field) in zunion.fields.iter().enumerate() {
+        let field_details =
+            FieldDetails::from_field(field, field_index + 1, symbol_scope, type_generator);
+        generate_packed_context_for_field(create_packing_context_fn, &field_details);
+    }
 
     let init_packing_context_fn = union_impl.new_fn("zserio_init_packing_context");
     init_packing_context_fn.arg_ref_self();
     init_packing_context_fn.arg("context_node", "&mut PackingContextNode");
     init_packing_context_fn.ret("Result<()>");
+    init_packing_context_fn.line(format!(
+        "{SELECTOR_CONTEXT}.init(&{SELECTOR_ARRAY_TRAIT}, &(self.union_selector as u32))?;"
+    ));
+    generate_union_match_construct(
+        symbol_scope,
+        type_generator,
+        init_packing_context_fn,
+        zunion,
+        true,
+        &|scope, type_generator, function, field_details, _| {
+            generate_init_packed_context_for_field(scope, type_generator, function, field_details)
+        },
+    );
     init_packing_context_fn.line("Ok(())");
 
     // Generate all the zserio functions.
@@ -173,7 +202,7 @@ pub fn generate_union_match_construct(
             convert_to_union_selector_name(&field.borrow().name)
         ));
         let field_details =
-            FieldDetails::from_field(field, context_node_index, symbol_scope, type_generator);
+            FieldDetails::from_field(field, context_node_index + 1, symbol_scope, type_generator);
         instantiate_zserio_array(
             symbol_scope,
             type_generator,
@@ -206,7 +235,7 @@ fn generate_zserio_read(
     zserio_read_fn.arg("reader", "&mut BitReader");
     zserio_read_fn.ret("Result<()>");
     zserio_read_fn.line(format!(
-        "self.union_selector = {}Selector::from_u32(ztype::read_varsize(reader)?);",
+        "self.union_selector = {}Selector::from_u32(ztype::read_varsize(reader)?)?;",
         rust_type_name
     ));
 
@@ -225,6 +254,14 @@ fn generate_zserio_read(
     zserio_read_packed_fn.arg("context_node", "&mut PackingContextNode");
     zserio_read_packed_fn.arg("reader", "&mut BitReader");
     zserio_read_packed_fn.ret("Result<()>");
+    zserio_read_packed_fn.line("let mut selector: u32 = 0;");
+    zserio_read_packed_fn.line(format!(
+        "{SELECTOR_CONTEXT}.read(&{SELECTOR_ARRAY_TRAIT}, reader, &mut selector)?;"
+    ));
+    zserio_read_packed_fn.line(format!(
+        "self.union_selector = {}Selector::from_u32(selector)?;",
+        rust_type_name
+    ));
     generate_union_match_construct(
         symbol_scope,
         type_generator,
@@ -262,8 +299,9 @@ fn generate_zserio_write(
     zserio_write_packed_fn.arg("context_node", "&mut PackingContextNode");
     zserio_write_packed_fn.arg("writer", "&mut BitWriter");
     zserio_write_packed_fn.ret("Result<()>");
-    zserio_write_packed_fn
-        .line("ztype::write_varsize(writer, self.union_selector as u32)?;".to_string());
+    zserio_write_packed_fn.line(format!(
+        "{SELECTOR_CONTEXT}.write(&{SELECTOR_ARRAY_TRAIT}, writer, &(self.union_selector as u32))?;"
+    ));
     generate_union_match_construct(
         symbol_scope,
         type_generator,
@@ -303,6 +341,9 @@ fn generate_zserio_bitsize(
     bitsize_packed_fn.arg("context_node", "&mut PackingContextNode");
     bitsize_packed_fn.arg("bit_position", "u64");
     bitsize_packed_fn.line("let mut end_position = bit_position;");
+    bitsize_packed_fn.line(format!(
+        "end_position += {SELECTOR_CONTEXT}.bitsize_of(&{SELECTOR_ARRAY_TRAIT}, end_position, &(self.union_selector as u32))?;"
+    ));
     generate_union_match_construct(
         symbol_scope,
         type_generator,
-- 
2.43.0


From 3e5bff8a2665b37f27a6e650ae61218d60f0ec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:35 +0000
Subject: [PATCH 16/30] fix: single symbol imports, qualified names and import
 cycles resolve to the right declaration

---
 .../src/internal/ast/expression.rs            |  2 +-
 .../src/internal/compiler/resolve_types.rs    |  2 +-
 .../src/internal/compiler/symbol_scope.rs     | 86 ++++++++++++++-----
 crates/zserio-rs-build/src/internal/model.rs  |  3 +
 4 files changed, 68 insertions(+), 25 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index a7cb8bb..c1189ff 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -733,6 +733,6 @@ fn type_reference_to_expression_type(
         }
     } else {
         // Resolve the symbol recursively, until a fundamental type is found.
-        symbol_to_expression_type(&scope.resolve_symbol(&type_ref.name, true), scope)
+        symbol_to_expression_type(&scope.resolve_type(type_ref), scope)
     }
 }
diff --git a/crates/zserio-rs-build/src/internal/compiler/resolve_types.rs b/crates/zserio-rs-build/src/internal/compiler/resolve_types.rs
index e22afb3..74fd5e9 100644
--- a/crates/zserio-rs-build/src/internal/compiler/resolve_types.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/resolve_types.rs
@@ -97,7 +97,7 @@ pub fn resolve_type_reference(type_reference: &mut TypeReference, scope: &ModelS
     if type_reference.is_builtin {
         return;
     }
-    let symbol_ref = scope.resolve_symbol(&type_reference.name, true);
+    let symbol_ref = scope.resolve_type(type_reference);
     if type_reference.package.is_empty() {
         type_reference.package.clone_from(&symbol_ref.package);
     }
diff --git a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
index ae25b8f..54a1222 100644
--- a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
@@ -17,7 +17,7 @@ use crate::internal::ast::{
 };
 
 use std::cell::RefCell;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
 
 /// This enum is used to cover any possible type of symbols.
@@ -99,10 +99,19 @@ impl ModelScope {
     pub fn get_symbol(&self, type_ref: &TypeReference) -> SymbolReference {
         match self.package_scopes.get(&type_ref.package) {
             Some(package_scope) => package_scope.get_symbol(&type_ref.name),
-            _ => panic!(""),
+            _ => panic!("reference to unknown package {}", &type_ref.package),
         }
     }
 
+    /// Resolves the symbol of a type reference. References which state their package are looked
+    /// up in that package, all others are resolved from the current scope.
+    pub fn resolve_type(&self, type_ref: &TypeReference) -> SymbolReference {
+        if type_ref.package.is_empty() {
+            return self.resolve_symbol(&type_ref.name, true);
+        }
+        self.get_symbol(type_ref)
+    }
+
     /// Returns the reference to the declaration of the enum or bitmask an expression evaluates to.
     pub fn find_declaration(&self, expression_type: &ExpressionType) -> SymbolReference {
         for package_scope in self.package_scopes.values() {
@@ -141,36 +150,46 @@ impl ModelScope {
         }
 
         // Try to find the symbol in the imported packages.
-        let mut imports_to_process = vec![];
-        for reference in package_scope.imports.iter() {
-            imports_to_process.push(reference);
-        }
+        let mut imports_to_process: Vec<&ZImport> = package_scope.imports.iter().collect();
+
+        // Packages can import each other, so keep track of what was already searched.
+        let mut processed_packages = HashSet::from([&package_scope.name]);
 
         while !imports_to_process.is_empty() {
             let mut new_imports_to_process = vec![];
 
+            // A symbol that is imported by its name takes precedence over the symbols of a
+            // package that is imported as a whole.
+            imports_to_process.sort_by_key(|import| import.symbol_name.is_none());
+
             for import in imports_to_process {
-                let package_name = import.package_dir.join(".");
-                let imported_package = self
-                    .package_scopes
-                    .get(&package_name)
-                    .unwrap_or_else(|| panic!("reference to unknown package {package_name}"));
-                if let Some(symbol) = imported_package.resolve_symbol(
-                    name,
-                    ignore_symbol_local_scopes,
-                    &ScopeLocation {
-                        package: package_name,
-                        import_symbol: import.symbol_name.clone(),
-                        symbol_name: None,
-                    },
-                ) {
-                    return symbol;
+                let imported_package = self.get_imported_package(import);
+
+                // An import of a single symbol doesn't make any other symbol visible.
+                let is_visible = match &import.symbol_name {
+                    Some(symbol_name) => symbol_name == name,
+                    None => true,
+                };
+                if is_visible {
+                    if let Some(symbol) = imported_package.resolve_symbol(
+                        name,
+                        ignore_symbol_local_scopes,
+                        &ScopeLocation {
+                            package: imported_package.name.clone(),
+                            import_symbol: import.symbol_name.clone(),
+                            symbol_name: None,
+                        },
+                    ) {
+                        return symbol;
+                    }
                 }
 
                 // If the symbol was not found in one of the current imports,
                 // it may be located in an import of the current import. Keep
                 // track of them to process them later.
-                new_imports_to_process.extend(&imported_package.imports);
+                if processed_packages.insert(&imported_package.name) {
+                    new_imports_to_process.extend(&imported_package.imports);
+                }
             }
             // If the symbol was not found, it may be found in an import of the
             // packages that were just processed.
@@ -180,6 +199,26 @@ impl ModelScope {
         // was not found anywhere.
         panic!("symbol not found: {:?}", name);
     }
+
+    /// Returns the scope of the package an import refers to.
+    fn get_imported_package(&self, import: &ZImport) -> &PackageScope {
+        let package_name = import.package_dir.join(".");
+        self.package_scopes
+            .get(&package_name)
+            .unwrap_or_else(|| panic!("reference to unknown package {package_name}"))
+    }
+
+    /// Ensures that all imported packages and symbols exist.
+    pub fn check_imports(&self) {
+        for package_scope in self.package_scopes.values() {
+            for import in &package_scope.imports {
+                let imported_package = self.get_imported_package(import);
+                if let Some(symbol_name) = &import.symbol_name {
+                    imported_package.get_symbol(symbol_name);
+                }
+            }
+        }
+    }
 }
 
 impl PackageScope {
@@ -223,7 +262,7 @@ impl PackageScope {
                 name: get_symbol_name(symbol),
                 package: self.name.clone(),
             },
-            _ => panic!(""),
+            _ => panic!("symbol {} not found in package {}", name, &self.name),
         }
     }
 
@@ -267,6 +306,7 @@ fn get_symbol_name(symbol: &Symbol) -> String {
     match symbol {
         Symbol::Struct(s) => s.as_ref().borrow().name.clone(),
         Symbol::Choice(c) => c.as_ref().borrow().name.clone(),
+        Symbol::Union(u) => u.as_ref().borrow().name.clone(),
         Symbol::Subtype(s) => s.as_ref().borrow().name.clone(),
         Symbol::Enum(e) => e.as_ref().borrow().name.clone(),
         Symbol::Bitmask(bitmask) => bitmask.as_ref().borrow().name.clone(),
diff --git a/crates/zserio-rs-build/src/internal/model.rs b/crates/zserio-rs-build/src/internal/model.rs
index 288ea6a..e9ff0a0 100644
--- a/crates/zserio-rs-build/src/internal/model.rs
+++ b/crates/zserio-rs-build/src/internal/model.rs
@@ -71,6 +71,9 @@ impl Model {
         // resolve types
         self.resolve_types();
 
+        // The instantiated templates can be imported as well, so the imports are only checked now.
+        self.scope.check_imports();
+
         // evaluate expressions
         self.evaluate_package();
     }
-- 
2.43.0


From 5be2f79e7d42195104a9ec04ce9f86b371494b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:53 +0000
Subject: [PATCH 17/30] fix: templates are resolved in their own package,
 nested arguments are substituted and instances do not share expressions

---
 .../src/internal/compiler/symbol_scope.rs     | 134 +++--
 .../compiler/template_instantiation.rs        | 503 ++++++++----------
 crates/zserio-rs-build/src/internal/model.rs  |   8 +-
 3 files changed, 332 insertions(+), 313 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
index 54a1222..31373cd 100644
--- a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
@@ -62,6 +62,15 @@ pub struct ScopeLocation {
     pub import_symbol: Option<String>,
     pub symbol_name: Option<String>,
 }
+
+/// Describes of which template a type is an instance, and with which arguments.
+#[derive(PartialEq)]
+pub struct TemplateInstance {
+    pub template_package: String,
+    pub template_name: String,
+    pub template_arguments: Vec<String>,
+}
+
 /// ModelScope contains all scopes in the entire zserio model.
 pub struct ModelScope {
     /// The scopes for each package, ordered by package name. The package
@@ -73,6 +82,9 @@ pub struct ModelScope {
     /// The scope is organized as a stack: at some point during evaluation, the
     /// scope may shift to another module.
     pub scope_stack: Vec<ScopeLocation>,
+
+    /// All instantiated templates, by the package and name of the instance.
+    pub template_instances: HashMap<(String, String), TemplateInstance>,
 }
 
 impl ModelScope {
@@ -80,6 +92,7 @@ impl ModelScope {
         let mut scope = ModelScope {
             package_scopes: HashMap::new(),
             scope_stack: vec![],
+            template_instances: HashMap::new(),
         };
         for package in packages.values() {
             scope
@@ -89,6 +102,36 @@ impl ModelScope {
         scope
     }
 
+    /// Registers an instance of a template. Returns the name of the instance, and if this instance
+    /// is already known.
+    pub fn add_template_instance(
+        &mut self,
+        package: &str,
+        name: &str,
+        is_explicit_name: bool,
+        instance: TemplateInstance,
+    ) -> (String, bool) {
+        let mut key = (package.to_string(), name.to_string());
+        let mut suffix = 2;
+        loop {
+            match self.template_instances.get(&key) {
+                Some(known_instance) if *known_instance == instance => return (key.1, true),
+                Some(_) => assert!(!is_explicit_name, "{name} is already defined in {package}"),
+                None => {
+                    // The name of a generated instance must not hide a declared type.
+                    let is_free =
+                        is_explicit_name || !self.package_scopes[package].has_symbol(&key.1);
+                    if is_free {
+                        self.template_instances.insert(key.clone(), instance);
+                        return (key.1, false);
+                    }
+                }
+            }
+            key.1 = format!("{name}{suffix}");
+            suffix += 1;
+        }
+    }
+
     pub fn get_package_scope(&mut self) -> &mut PackageScope {
         let evaluation_scope = self.scope_stack.last().unwrap();
         self.package_scopes
@@ -142,18 +185,32 @@ impl ModelScope {
         let evaluation_scope = self.scope_stack.last().unwrap();
         let package_scope = self.package_scopes.get(&evaluation_scope.package).unwrap();
 
-        // Try if the symbol can be found in the current package.
-        if let Some(symbol) =
-            package_scope.resolve_symbol(name, ignore_symbol_local_scopes, evaluation_scope)
+        // The content of a template is resolved in the package which declares the template.
+        let instance_key = evaluation_scope
+            .symbol_name
+            .as_ref()
+            .map(|symbol_name| (evaluation_scope.package.clone(), symbol_name.clone()));
+        let declaration_scope = match instance_key.and_then(|key| self.template_instances.get(&key))
         {
+            Some(instance) => self.package_scopes.get(&instance.template_package).unwrap(),
+            None => package_scope,
+        };
+
+        // Try if the symbol can be found in the current symbol, or in the current package.
+        if !ignore_symbol_local_scopes {
+            if let Some(symbol) = package_scope.resolve_local_symbol(name, evaluation_scope) {
+                return symbol;
+            }
+        }
+        if let Some(symbol) = declaration_scope.resolve_file_symbol(name) {
             return symbol;
         }
 
         // Try to find the symbol in the imported packages.
-        let mut imports_to_process: Vec<&ZImport> = package_scope.imports.iter().collect();
+        let mut imports_to_process: Vec<&ZImport> = declaration_scope.imports.iter().collect();
 
         // Packages can import each other, so keep track of what was already searched.
-        let mut processed_packages = HashSet::from([&package_scope.name]);
+        let mut processed_packages = HashSet::from([&declaration_scope.name]);
 
         while !imports_to_process.is_empty() {
             let mut new_imports_to_process = vec![];
@@ -171,15 +228,7 @@ impl ModelScope {
                     None => true,
                 };
                 if is_visible {
-                    if let Some(symbol) = imported_package.resolve_symbol(
-                        name,
-                        ignore_symbol_local_scopes,
-                        &ScopeLocation {
-                            package: imported_package.name.clone(),
-                            import_symbol: import.symbol_name.clone(),
-                            symbol_name: None,
-                        },
-                    ) {
+                    if let Some(symbol) = imported_package.resolve_file_symbol(name) {
                         return symbol;
                     }
                 }
@@ -251,6 +300,15 @@ impl PackageScope {
         for subtype in &package.subtypes {
             add_subtype_to_scope(subtype, &mut scope)
         }
+        for instantiation in &package.instantiated_types {
+            // Until the template is instantiated, the name is an alias for the template.
+            let instantiation = instantiation.borrow();
+            let alias = Rc::new(RefCell::new(Subtype {
+                name: instantiation.name.clone(),
+                zserio_type: instantiation.zserio_type.clone(),
+            }));
+            add_subtype_to_scope(&alias, &mut scope)
+        }
 
         scope
     }
@@ -266,39 +324,33 @@ impl PackageScope {
         }
     }
 
-    /// Searches for a symbol within the current scope.
-    pub fn resolve_symbol(
+    pub fn has_symbol(&self, name: &String) -> bool {
+        self.file_symbols.contains_key(name)
+    }
+
+    /// Searches for a symbol within the current symbol (e.g. struct, enum, etc).
+    pub fn resolve_local_symbol(
         &self,
         name: &String,
-        ignore_symbol_local_scopes: bool,
         evaluation_scope: &ScopeLocation,
     ) -> Option<SymbolReference> {
-        if !ignore_symbol_local_scopes {
-            // Unless explicitly ignored, search for the symbol within
-            // the current symbol (e.g. struct, enum, etc)
-            if let Some(symbol_name) = &evaluation_scope.symbol_name {
-                if let Some(symbol_scope) = self.local_symbols.get(symbol_name) {
-                    if let Some(symbol) = symbol_scope.get(name) {
-                        return Option::from(SymbolReference {
-                            symbol: symbol.clone(),
-                            name: get_symbol_name(symbol),
-                            package: self.name.clone(),
-                        });
-                    }
-                }
-            }
-        }
+        let symbol_name = evaluation_scope.symbol_name.as_ref()?;
+        let symbol = self.local_symbols.get(symbol_name)?.get(name)?;
+        Some(self.to_symbol_reference(symbol))
+    }
 
-        // second, search in the package scope
-        if let Some(symbol) = self.file_symbols.get(name) {
-            return Option::from(SymbolReference {
-                symbol: symbol.clone(),
-                name: get_symbol_name(symbol),
-                package: self.name.clone(),
-            });
+    /// Searches for a symbol within the package scope.
+    pub fn resolve_file_symbol(&self, name: &String) -> Option<SymbolReference> {
+        let symbol = self.file_symbols.get(name)?;
+        Some(self.to_symbol_reference(symbol))
+    }
+
+    fn to_symbol_reference(&self, symbol: &Symbol) -> SymbolReference {
+        SymbolReference {
+            symbol: symbol.clone(),
+            name: get_symbol_name(symbol),
+            package: self.name.clone(),
         }
-        // The symbol was not found in the current package.
-        None
     }
 }
 
diff --git a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
index 4988620..b140c71 100644
--- a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
@@ -1,4 +1,3 @@
-use crate::internal::ast::expression::Expression;
 use crate::internal::ast::field::Field;
 use crate::internal::ast::package::ZPackage;
 use crate::internal::ast::parameter::Parameter;
@@ -8,7 +7,10 @@ use crate::internal::ast::zfunction::ZFunction;
 use crate::internal::ast::zstruct::{add_struct_to_scope, ZStruct};
 use crate::internal::ast::zunion::{add_zunion_to_scope, ZUnion};
 
-use crate::internal::compiler::symbol_scope::{ModelScope, Symbol};
+use crate::internal::compiler::resolve_types::resolve_type_reference;
+use crate::internal::compiler::symbol_scope::{
+    ModelScope, ScopeLocation, Symbol, TemplateInstance,
+};
 use std::cell::RefCell;
 use std::collections::HashMap;
 use std::rc::Rc;
@@ -30,46 +32,171 @@ pub fn instantiate_type(
         return zserio_type.clone();
     }
 
-    let mut new_type_name = String::from(name);
-    if new_type_name.is_empty() {
-        // in case no name is provided, a new name needs to be generated.
-        new_type_name = generate_instantiated_name(zserio_type);
+    let symbol = scope.resolve_type(zserio_type);
+
+    // The arguments are resolved where the template is used, whereas everything else in the
+    // template is resolved where the template is declared. A template argument can be a template
+    // by itself, which must be instantiated first.
+    let mut template_arguments = vec![];
+    for template_argument in &zserio_type.template_arguments {
+        let mut template_argument = instantiate_type(pkg, scope, template_argument, "");
+        resolve_type_reference(&mut template_argument, scope);
+        template_arguments.push(template_argument);
     }
 
-    let symbol = scope.resolve_symbol(&zserio_type.name, true);
-    match symbol.symbol {
-        Symbol::Struct(s) => {
-            return instantiate_struct(
+    let instance = TemplateInstance {
+        template_package: symbol.package.clone(),
+        template_name: zserio_type.name.clone(),
+        template_arguments: template_arguments.iter().map(describe_type).collect(),
+    };
+    let new_type_name = match name.is_empty() {
+        // in case no name is provided, a new name needs to be generated.
+        true => generate_instantiated_name(zserio_type),
+        false => String::from(name),
+    };
+    let (new_type_name, is_known) =
+        scope.add_template_instance(&pkg.name, &new_type_name, !name.is_empty(), instance);
+
+    if !is_known {
+        match symbol.symbol {
+            Symbol::Struct(s) => instantiate_struct(
                 pkg,
                 scope,
                 &s.as_ref().borrow(),
-                &zserio_type.template_arguments,
-                &zserio_type.type_arguments,
+                &symbol.package,
+                &template_arguments,
                 &new_type_name,
-            );
-        }
-        Symbol::Choice(c) => {
-            return instantiate_choice(
+            ),
+            Symbol::Choice(c) => instantiate_choice(
                 pkg,
                 scope,
                 &c.as_ref().borrow(),
-                &zserio_type.template_arguments,
-                &zserio_type.type_arguments,
+                &symbol.package,
+                &template_arguments,
                 &new_type_name,
-            );
-        }
-        Symbol::Union(u) => {
-            return instantiate_union(
+            ),
+            Symbol::Union(u) => instantiate_union(
                 pkg,
                 scope,
                 &u.as_ref().borrow(),
-                &zserio_type.template_arguments,
-                &zserio_type.type_arguments,
+                &symbol.package,
+                &template_arguments,
                 &new_type_name,
-            );
+            ),
+            _ => panic!("unsupported type for template instantiation"),
+        }
+    }
+
+    TypeReference {
+        is_builtin: false,
+        package: pkg.name.clone(),
+        name: new_type_name,
+        bits: 0,
+        template_arguments: vec![],
+        type_arguments: zserio_type.type_arguments.to_owned(),
+        length_expression: None,
+    }
+}
+
+/// Returns a description of a type that is unique for each type.
+fn describe_type(zserio_type: &TypeReference) -> String {
+    format!(
+        "{}.{}:{}",
+        zserio_type.package, zserio_type.name, zserio_type.bits
+    )
+}
+
+/// Replaces the template parameters in a type that is used in a template. All other types are
+/// resolved in the package of the template.
+fn substitute_type(
+    scope: &mut ModelScope,
+    zserio_type: &TypeReference,
+    template_package: &str,
+    instantiated_types: &HashMap<String, TypeReference>,
+) -> TypeReference {
+    let mut new_type = zserio_type.clone();
+    new_type.type_arguments = zserio_type.type_arguments.iter().map(copy_rc).collect();
+    new_type.length_expression = zserio_type.length_expression.as_ref().map(copy_rc);
+
+    if new_type.is_builtin {
+        return new_type;
+    }
+    if new_type.package.is_empty() {
+        if let Some(instantiated_type) = instantiated_types.get(&new_type.name) {
+            // The type is a template parameter.
+            let mut instantiated_type = instantiated_type.clone();
+            instantiated_type.type_arguments = new_type.type_arguments;
+            return instantiated_type;
         }
-        _ => panic!("unsupported type for template instantiation"),
     }
+    scope.scope_stack.push(ScopeLocation {
+        package: template_package.into(),
+        import_symbol: None,
+        symbol_name: None,
+    });
+    resolve_type_reference(&mut new_type, scope);
+    scope.scope_stack.pop();
+
+    // The type can be a template, which is using the template parameters in its arguments.
+    new_type.template_arguments = new_type
+        .template_arguments
+        .iter()
+        .map(|argument| substitute_type(scope, argument, template_package, instantiated_types))
+        .collect();
+    new_type
+}
+
+/// Copies an item of a template. The instances are evaluated independently of each other.
+fn copy_rc<T: Clone>(item: &Rc<RefCell<T>>) -> Rc<RefCell<T>> {
+    Rc::new(RefCell::new(item.borrow().clone()))
+}
+
+fn map_template_parameters(
+    template_parameters: &[String],
+    template_arguments: &[TypeReference],
+) -> HashMap<String, TypeReference> {
+    assert!(!template_parameters.is_empty());
+    assert!(template_parameters.len() == template_arguments.len());
+    template_parameters
+        .iter()
+        .cloned()
+        .zip(template_arguments.iter().cloned())
+        .collect()
+}
+
+fn instantiate_parameter(
+    scope: &mut ModelScope,
+    parameter: &Parameter,
+    template_package: &str,
+    instantiated_types: &HashMap<String, TypeReference>,
+) -> Rc<RefCell<Parameter>> {
+    Rc::new(RefCell::new(Parameter {
+        name: parameter.name.clone(),
+        zserio_type: Box::new(substitute_type(
+            scope,
+            &parameter.zserio_type,
+            template_package,
+            instantiated_types,
+        )),
+    }))
+}
+
+fn instantiate_function(
+    scope: &mut ModelScope,
+    function: &ZFunction,
+    template_package: &str,
+    instantiated_types: &HashMap<String, TypeReference>,
+) -> Rc<RefCell<ZFunction>> {
+    Rc::new(RefCell::new(ZFunction {
+        name: function.name.clone(),
+        result: copy_rc(&function.result),
+        return_type: Box::new(substitute_type(
+            scope,
+            &function.return_type,
+            template_package,
+            instantiated_types,
+        )),
+    }))
 }
 
 fn generate_instantiated_name(type_reference: &TypeReference) -> String {
@@ -88,42 +215,12 @@ fn instantiate_struct(
     pkg: &mut ZPackage,
     scope: &mut ModelScope,
     z_struct: &ZStruct,
+    template_package: &str,
     template_arguments: &[TypeReference],
-    type_arguments: &[Rc<RefCell<Expression>>],
     instantiated_name: &String,
-) -> TypeReference {
-    assert!(!z_struct.template_parameters.is_empty());
-    assert!(z_struct.template_parameters.len() == template_arguments.len());
-
-    let new_type_ref = TypeReference {
-        is_builtin: false,
-        package: pkg.name.clone(),
-        name: instantiated_name.clone(),
-        bits: 0,
-        template_arguments: vec![],
-        type_arguments: type_arguments.to_owned(),
-        length_expression: None,
-    };
-
-    if pkg.structs.contains_key(instantiated_name) {
-        // The structure was already instantiated, there is no need to instantiate it again.
-        // Return a new reference to the already existing type.
-        return new_type_ref;
-    }
-
-    // The instantiated struct doesn't exist yet. Start by instantiating the
-    // template parameter itself.
-    let mut instantiated_types: HashMap<String, TypeReference> = HashMap::new();
-    for (index, template_arg) in template_arguments.iter().enumerate() {
-        // In case the type instantiation is a template itself, it must be instantiated
-        // before mapping it. In case the template argument itself is not a template,
-        // instantiate_type() will just pass the type through.
-        let instantiated_type = instantiate_type(pkg, scope, template_arg, "");
-        instantiated_types.insert(
-            z_struct.template_parameters[index].clone(),
-            instantiated_type,
-        );
-    }
+) {
+    let instantiated_types =
+        map_template_parameters(&z_struct.template_parameters, template_arguments);
 
     let mut instantiated_struct = ZStruct {
         name: instantiated_name.clone(),
@@ -142,47 +239,29 @@ fn instantiate_struct(
                 pkg,
                 scope,
                 &field.borrow(),
+                template_package,
                 &instantiated_types,
             ))));
     }
     // Instantiate the parameters
-    for rc_param in &z_struct.type_parameters {
-        // Check if the parameter is a templated type
-        let param = rc_param.as_ref().borrow();
-        if instantiated_types.contains_key(&param.zserio_type.name) {
-            // The parameter is a templated type, so replace the parameter
-            // type by a reference to the newly instantiated type.
-            instantiated_struct
-                .type_parameters
-                .push(Rc::new(RefCell::new(Parameter {
-                    name: param.name.clone(),
-                    zserio_type: Box::new(instantiated_types[&param.zserio_type.name].clone()),
-                })));
-        } else {
-            // The parameter is not templated, and is not affected by template instantiation.
-            instantiated_struct
-                .type_parameters
-                .push(Rc::new(RefCell::new(param.clone())));
-        }
+    for param in &z_struct.type_parameters {
+        instantiated_struct
+            .type_parameters
+            .push(instantiate_parameter(
+                scope,
+                &param.as_ref().borrow(),
+                template_package,
+                &instantiated_types,
+            ));
     }
 
-    for rc_function in &z_struct.functions {
-        let function = rc_function.as_ref().borrow();
-        if instantiated_types.contains_key(&function.return_type.name) {
-            // The parameter is a templated type, so replace the parameter
-            // type by a reference to the newly instantiated type.
-            instantiated_struct
-                .functions
-                .push(Rc::new(RefCell::new(ZFunction {
-                    name: function.name.clone(),
-                    result: function.result.clone(),
-                    return_type: Box::new(instantiated_types[&function.return_type.name].clone()),
-                })));
-        } else {
-            instantiated_struct
-                .functions
-                .push(Rc::new(RefCell::new(function.clone())));
-        }
+    for function in &z_struct.functions {
+        instantiated_struct.functions.push(instantiate_function(
+            scope,
+            &function.as_ref().borrow(),
+            template_package,
+            &instantiated_types,
+        ));
     }
 
     // Add the newly added structure to the package.
@@ -193,55 +272,24 @@ fn instantiate_struct(
 
     // Update the scope to contain the newly added structure.
     add_struct_to_scope(&pkg.structs[instantiated_name], scope.get_package_scope());
-    new_type_ref
 }
 
 fn instantiate_choice(
     pkg: &mut ZPackage,
     scope: &mut ModelScope,
     z_choice: &ZChoice,
+    template_package: &str,
     template_arguments: &[TypeReference],
-    type_arguments: &[Rc<RefCell<Expression>>],
     instantiated_name: &String,
-) -> TypeReference {
-    assert!(!z_choice.template_parameters.is_empty());
-    assert!(z_choice.template_parameters.len() == template_arguments.len());
-
-    let new_type_ref = TypeReference {
-        is_builtin: false,
-        package: pkg.name.clone(),
-        name: instantiated_name.clone(),
-        bits: 0,
-        template_arguments: vec![],
-        type_arguments: type_arguments.to_owned(),
-        length_expression: None,
-    };
-
-    if pkg.zchoices.contains_key(instantiated_name) {
-        // The structure was already instantiated, there is no need to instantiate it again.
-        // Return a new reference to the already existing type.
-        return new_type_ref;
-    }
-
-    // The instantiated struct doesn't exist yet. Start by instantiating the
-    // template parameter itself.
-    let mut instantiated_types: HashMap<String, TypeReference> = HashMap::new();
-    for (index, template_arg) in template_arguments.iter().enumerate() {
-        // In case the type instantiation is a template itself, it must be instantiated
-        // before mapping it. In case the template argument itself is not a template,
-        // instantiate_type() will just pass the type through.
-        let instantiated_type = instantiate_type(pkg, scope, template_arg, "");
-        instantiated_types.insert(
-            z_choice.template_parameters[index].clone(),
-            instantiated_type,
-        );
-    }
+) {
+    let instantiated_types =
+        map_template_parameters(&z_choice.template_parameters, template_arguments);
 
     let mut instantiated_choice = ZChoice {
         name: instantiated_name.clone(),
         template_parameters: vec![],
         type_parameters: vec![],
-        selector_expression: z_choice.selector_expression.clone(),
+        selector_expression: copy_rc(&z_choice.selector_expression),
         cases: vec![],
         default_case: None,
         functions: vec![],
@@ -250,13 +298,14 @@ fn instantiate_choice(
     // Instantiate the choice fields
     for case in &z_choice.cases {
         instantiated_choice.cases.push(ZChoiceCase {
-            conditions: case.conditions.clone(),
+            conditions: case.conditions.iter().map(copy_rc).collect(),
             field: {
                 if let Some(field) = &case.field {
                     Option::from(Rc::from(RefCell::from(instantiate_field(
                         pkg,
                         scope,
                         &field.borrow(),
+                        template_package,
                         &instantiated_types,
                     ))))
                 } else {
@@ -268,13 +317,14 @@ fn instantiate_choice(
     // Instantiate the default field, if present
     if let Some(default_case) = &z_choice.default_case {
         instantiated_choice.default_case = Option::from(ZChoiceCase {
-            conditions: default_case.conditions.clone(),
+            conditions: default_case.conditions.iter().map(copy_rc).collect(),
             field: {
                 if let Some(field) = &default_case.field {
                     Option::from(Rc::from(RefCell::from(instantiate_field(
                         pkg,
                         scope,
                         &field.borrow(),
+                        template_package,
                         &instantiated_types,
                     ))))
                 } else {
@@ -285,43 +335,24 @@ fn instantiate_choice(
     }
 
     // Instantiate the parameters
-    for rc_param in &z_choice.type_parameters {
-        // Check if the parameter is a templated type
-        let param = rc_param.as_ref().borrow();
-        if instantiated_types.contains_key(&param.name) {
-            // The parameter is a templated type, so replace the parameter
-            // type by a reference to the newly instantiated type.
-            instantiated_choice
-                .type_parameters
-                .push(Rc::new(RefCell::new(Parameter {
-                    name: param.name.clone(),
-                    zserio_type: Box::new(instantiated_types[&param.name].clone()),
-                })));
-        } else {
-            // The parameter is not templated, and is not affected by template instantiation.
-            instantiated_choice
-                .type_parameters
-                .push(Rc::new(RefCell::new(param.clone())));
-        }
+    for param in &z_choice.type_parameters {
+        instantiated_choice
+            .type_parameters
+            .push(instantiate_parameter(
+                scope,
+                &param.as_ref().borrow(),
+                template_package,
+                &instantiated_types,
+            ));
     }
 
-    for rc_function in &z_choice.functions {
-        let function = rc_function.as_ref().borrow();
-        if instantiated_types.contains_key(&function.return_type.name) {
-            // The parameter is a templated type, so replace the parameter
-            // type by a reference to the newly instantiated type.
-            instantiated_choice
-                .functions
-                .push(Rc::new(RefCell::new(ZFunction {
-                    name: function.name.clone(),
-                    result: function.result.clone(),
-                    return_type: Box::new(instantiated_types[&function.return_type.name].clone()),
-                })));
-        } else {
-            instantiated_choice
-                .functions
-                .push(Rc::new(RefCell::new(function.clone())));
-        }
+    for function in &z_choice.functions {
+        instantiated_choice.functions.push(instantiate_function(
+            scope,
+            &function.as_ref().borrow(),
+            template_package,
+            &instantiated_types,
+        ));
     }
     // Add the newly added choice to the package.
     pkg.zchoices.insert(
@@ -331,49 +362,18 @@ fn instantiate_choice(
 
     // Update the scope to contain the newly added structure.
     add_choice_to_scope(&pkg.zchoices[instantiated_name], scope.get_package_scope());
-    new_type_ref
 }
 
 fn instantiate_union(
     pkg: &mut ZPackage,
     scope: &mut ModelScope,
     z_union: &ZUnion,
+    template_package: &str,
     template_arguments: &[TypeReference],
-    type_arguments: &[Rc<RefCell<Expression>>],
     instantiated_name: &String,
-) -> TypeReference {
-    assert!(!z_union.template_parameters.is_empty());
-    assert!(z_union.template_parameters.len() == template_arguments.len());
-
-    let new_type_ref = TypeReference {
-        is_builtin: false,
-        package: pkg.name.clone(),
-        name: instantiated_name.clone(),
-        bits: 0,
-        template_arguments: vec![],
-        type_arguments: type_arguments.to_owned(),
-        length_expression: None,
-    };
-
-    if pkg.zunions.contains_key(instantiated_name) {
-        // The union was already instantiated, there is no need to instantiate it again.
-        // Return a new reference to the already existing type.
-        return new_type_ref;
-    }
-
-    // The instantiated struct doesn't exist yet. Start by instantiating the
-    // template parameter itself.
-    let mut instantiated_types: HashMap<String, TypeReference> = HashMap::new();
-    for (index, template_arg) in template_arguments.iter().enumerate() {
-        // In case the type instantiation is a template itself, it must be instantiated
-        // before mapping it. In case the template argument itself is not a template,
-        // instantiate_type() will just pass the type through.
-        let instantiated_type = instantiate_type(pkg, scope, template_arg, "");
-        instantiated_types.insert(
-            z_union.template_parameters[index].clone(),
-            instantiated_type,
-        );
-    }
+) {
+    let instantiated_types =
+        map_template_parameters(&z_union.template_parameters, template_arguments);
 
     let mut instantiated_union = ZUnion {
         name: instantiated_name.clone(),
@@ -392,47 +392,29 @@ fn instantiate_union(
                 pkg,
                 scope,
                 &field.borrow(),
+                template_package,
                 &instantiated_types,
             ))));
     }
     // Instantiate the parameters
-    for rc_param in &z_union.type_parameters {
-        // Check if the parameter is a templated type
-        let param = rc_param.as_ref().borrow();
-        if instantiated_types.contains_key(&param.zserio_type.name) {
-            // The parameter is a templated type, so replace the parameter
-            // type by a reference to the newly instantiated type.
-            instantiated_union
-                .type_parameters
-                .push(Rc::new(RefCell::new(Parameter {
-                    name: param.name.clone(),
-                    zserio_type: Box::new(instantiated_types[&param.zserio_type.name].clone()),
-                })));
-        } else {
-            // The parameter is not templated, and is not affected by template instantiation.
-            instantiated_union
-                .type_parameters
-                .push(Rc::new(RefCell::new(param.clone())));
-        }
+    for param in &z_union.type_parameters {
+        instantiated_union
+            .type_parameters
+            .push(instantiate_parameter(
+                scope,
+                &param.as_ref().borrow(),
+                template_package,
+                &instantiated_types,
+            ));
     }
 
-    for rc_function in &z_union.functions {
-        let function = rc_function.as_ref().borrow();
-        if instantiated_types.contains_key(&function.return_type.name) {
-            // The parameter is a templated type, so replace the parameter
-            // type by a reference to the newly instantiated type.
-            instantiated_union
-                .functions
-                .push(Rc::new(RefCell::new(ZFunction {
-                    name: function.name.clone(),
-                    result: function.result.clone(),
-                    return_type: Box::new(instantiated_types[&function.return_type.name].clone()),
-                })));
-        } else {
-            instantiated_union
-                .functions
-                .push(Rc::new(RefCell::new(function.clone())));
-        }
+    for function in &z_union.functions {
+        instantiated_union.functions.push(instantiate_function(
+            scope,
+            &function.as_ref().borrow(),
+            template_package,
+            &instantiated_types,
+        ));
     }
 
     // Update the scope to contain the newly added union.
@@ -441,48 +423,31 @@ fn instantiate_union(
         Rc::from(RefCell::from(instantiated_union)),
     );
     add_zunion_to_scope(&pkg.zunions[instantiated_name], scope.get_package_scope());
-    new_type_ref
 }
 
 pub fn instantiate_field(
     pkg: &mut ZPackage,
     scope: &mut ModelScope,
     field: &Field,
+    template_package: &str,
     instantiated_types: &HashMap<String, TypeReference>,
 ) -> Field {
     let mut new_field = field.clone();
-    if !new_field.field_type.template_arguments.is_empty() {
-        // The field type is not a template type itself, but by itself is a template,
-        // which is using the template type in its template parameters.
-        // For example:
-        // SomeOtherTemplate<TEMPLATE_TYPE> field;
-
-        // Iterate over the template parameters and instantiate them.
-        let mut new_template_arguments = vec![];
-
-        for template_parameter in new_field.field_type.template_arguments.iter() {
-            if instantiated_types.contains_key(&template_parameter.name) {
-                new_template_arguments.push(instantiated_types[&template_parameter.name].clone());
-            } else {
-                new_template_arguments.push(template_parameter.clone());
-            }
-        }
-        new_field.field_type.template_arguments = new_template_arguments;
-
-        new_field.field_type = Box::from(instantiate_type(pkg, scope, &new_field.field_type, ""));
-        return new_field;
+    new_field.initializer = field.initializer.as_ref().map(copy_rc);
+    new_field.offset = field.offset.as_ref().map(copy_rc);
+    new_field.constraint = field.constraint.as_ref().map(copy_rc);
+    new_field.optional_clause = field.optional_clause.as_ref().map(copy_rc);
+    if let Some(array) = &mut new_field.array {
+        array.array_length_expression = array.array_length_expression.as_ref().map(copy_rc);
     }
 
-    // Check if the field type is directly a templated type. For example:
-    // TEMPLATE_TYPE field;
-    if instantiated_types.contains_key(&field.field_type.name) {
-        new_field.field_type = Box::from(instantiated_types[&field.field_type.name].clone());
-        // copy the parameters, if set
-        new_field
-            .field_type
-            .type_arguments
-            .clone_from(&field.field_type.type_arguments);
-    }
+    let new_type = substitute_type(
+        scope,
+        &field.field_type,
+        template_package,
+        instantiated_types,
+    );
+    new_field.field_type = Box::from(instantiate_type(pkg, scope, &new_type, ""));
     new_field
 }
 
diff --git a/crates/zserio-rs-build/src/internal/model.rs b/crates/zserio-rs-build/src/internal/model.rs
index e9ff0a0..0d13d45 100644
--- a/crates/zserio-rs-build/src/internal/model.rs
+++ b/crates/zserio-rs-build/src/internal/model.rs
@@ -5,6 +5,7 @@ use crate::internal::compiler::resolve_types::{
 };
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::model::package::package_from_file;
+use itertools::Itertools;
 use std::collections::HashMap;
 use std::path::Path;
 use walkdir::WalkDir;
@@ -50,6 +51,7 @@ impl Model {
             scope: ModelScope {
                 package_scopes: HashMap::new(),
                 scope_stack: vec![],
+                template_instances: HashMap::new(),
             },
         }
     }
@@ -197,7 +199,7 @@ impl Model {
             // to not work on a list that is modified on the fly, we take a clone of
             // the current structs/choices/unions.
             let zstructs = pkg.structs.clone();
-            for z_struct in zstructs.values() {
+            for (_, z_struct) in zstructs.iter().sorted_by_key(|x| x.0) {
                 scope.scope_stack.push(ScopeLocation {
                     package: pkg.name.clone(),
                     import_symbol: None,
@@ -208,7 +210,7 @@ impl Model {
             }
 
             let zchoices = pkg.zchoices.clone();
-            for z_choice in zchoices.values() {
+            for (_, z_choice) in zchoices.iter().sorted_by_key(|x| x.0) {
                 scope.scope_stack.push(ScopeLocation {
                     package: pkg.name.clone(),
                     import_symbol: None,
@@ -219,7 +221,7 @@ impl Model {
             }
 
             let zunions = pkg.zunions.clone();
-            for z_union in zunions.values() {
+            for (_, z_union) in zunions.iter().sorted_by_key(|x| x.0) {
                 scope.scope_stack.push(ScopeLocation {
                     package: pkg.name.clone(),
                     import_symbol: None,
-- 
2.43.0


From cb67e7f402d1e33a4817782aa0b63b31a7ea0f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:13 +0000
Subject: [PATCH 18/30] fix: packages whose name is a prefix of another package
 are part of the module tree

---
 .../src/internal/generator/mod_file.rs        | 40 +++++++++++++++----
 .../src/internal/generator/model.rs           | 15 +++++--
 .../src/internal/generator/package.rs         |  3 ++
 3 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/mod_file.rs b/crates/zserio-rs-build/src/internal/generator/mod_file.rs
index 230bf37..bd58624 100644
--- a/crates/zserio-rs-build/src/internal/generator/mod_file.rs
+++ b/crates/zserio-rs-build/src/internal/generator/mod_file.rs
@@ -9,9 +9,16 @@ use std::rc::Rc;
 
 struct ZserioModuleTreeNode {
     children: HashMap<String, Rc<RefCell<ZserioModuleTreeNode>>>,
+
+    /// A package declares the modules of its children in its own mod file.
+    is_package: bool,
 }
 
-fn add_package_to_tree(tree_node: &Rc<RefCell<ZserioModuleTreeNode>>, pkg_name: &str) {
+/// Returns the node of the package, which is added to the tree if needed.
+fn add_package_to_tree(
+    tree_node: &Rc<RefCell<ZserioModuleTreeNode>>,
+    pkg_name: &str,
+) -> Rc<RefCell<ZserioModuleTreeNode>> {
     let mut current_node: Rc<RefCell<ZserioModuleTreeNode>> = tree_node.clone();
     //let mut current_node = tree_node;
     for module_path in pkg_name.split('.') {
@@ -32,6 +39,7 @@ fn add_package_to_tree(tree_node: &Rc<RefCell<ZserioModuleTreeNode>>, pkg_name:
             rust_module_name.clone(),
             Rc::from(RefCell::from(ZserioModuleTreeNode {
                 children: HashMap::new(),
+                is_package: false,
             })),
         );
         let new_node = current_node
@@ -42,6 +50,7 @@ fn add_package_to_tree(tree_node: &Rc<RefCell<ZserioModuleTreeNode>>, pkg_name:
             .clone();
         current_node = new_node;
     }
+    current_node
 }
 
 fn generate_mod_section(
@@ -57,7 +66,7 @@ fn generate_mod_section(
             *file_content += "#[rustfmt::skip]\n";
         }
 
-        if module_tree_node.borrow().children.is_empty() {
+        if module_tree_node.borrow().is_package {
             *file_content += format!("pub mod {};\n", mod_name).as_str();
             return;
         }
@@ -79,17 +88,34 @@ fn generate_mod_section(
     }
 }
 
-/// This function generates the top-level mod file, which adds all generated packages
-/// to the known packages.
-pub fn generate_top_level_mod_file(model: &Model, package_directory: &Path, root_package: &str) {
-    // Reorganize the packages into a tree structure, categorized by module.
+/// Reorganizes the packages into a tree structure, categorized by module.
+fn build_module_tree(model: &Model) -> Rc<RefCell<ZserioModuleTreeNode>> {
     let module_tree_root = Rc::from(RefCell::from(ZserioModuleTreeNode {
         children: HashMap::new(),
+        is_package: false,
     }));
 
     for package in model.packages.values() {
-        add_package_to_tree(&module_tree_root, &package.name);
+        add_package_to_tree(&module_tree_root, &package.name)
+            .borrow_mut()
+            .is_package = true;
     }
+    module_tree_root
+}
+
+/// Generates the declarations of the modules of all packages whose name starts with the name of
+/// this package. They are located in the directory of the package.
+pub fn generate_sub_package_modules(model: &Model, pkg_name: &str) -> String {
+    let module_tree_node = add_package_to_tree(&build_module_tree(model), pkg_name);
+    let mut content = String::from("");
+    generate_mod_section(&mut content, "", &module_tree_node, 0);
+    content
+}
+
+/// This function generates the top-level mod file, which adds all generated packages
+/// to the known packages.
+pub fn generate_top_level_mod_file(model: &Model, package_directory: &Path, root_package: &str) {
+    let module_tree_root = build_module_tree(model);
 
     // Generate the mod.rs file content.
     let mut mod_file_content = String::from("");
diff --git a/crates/zserio-rs-build/src/internal/generator/model.rs b/crates/zserio-rs-build/src/internal/generator/model.rs
index 29a612b..e8ce062 100644
--- a/crates/zserio-rs-build/src/internal/generator/model.rs
+++ b/crates/zserio-rs-build/src/internal/generator/model.rs
@@ -1,4 +1,6 @@
-use crate::internal::generator::mod_file::generate_top_level_mod_file;
+use crate::internal::generator::mod_file::{
+    generate_sub_package_modules, generate_top_level_mod_file,
+};
 use crate::internal::generator::package::generate_package;
 use crate::internal::generator::types::TypeGenerator;
 use crate::internal::model::Model;
@@ -8,11 +10,18 @@ use std::path::Path;
 pub fn generate_model(model: &mut Model, package_directory: &Path, root_package: &str) {
     let mut type_generator = TypeGenerator::new(root_package.to_owned());
 
-    let scope = &mut model.scope;
+    let scope = &model.scope;
     // Generate the rust interface files for all packages.
     for package in model.packages.values() {
         info!("generating rust code for package {0}...", package.name);
-        generate_package(&mut type_generator, scope, package, package_directory);
+        let sub_modules = generate_sub_package_modules(model, &package.name);
+        generate_package(
+            &mut type_generator,
+            scope,
+            package,
+            package_directory,
+            &sub_modules,
+        );
     }
 
     // Generate the overall mod file.
diff --git a/crates/zserio-rs-build/src/internal/generator/package.rs b/crates/zserio-rs-build/src/internal/generator/package.rs
index 8fa410a..be740cf 100644
--- a/crates/zserio-rs-build/src/internal/generator/package.rs
+++ b/crates/zserio-rs-build/src/internal/generator/package.rs
@@ -14,6 +14,7 @@ pub fn generate_package(
     symbol_scope: &ModelScope,
     package: &ZPackage,
     package_directory: &Path,
+    sub_modules: &str,
 ) {
     let package_name = &package.name;
     let mut module_names = Vec::new();
@@ -170,5 +171,7 @@ pub fn generate_package(
         mod_file_content += format!("pub use {module_name}::*;\n").as_str();
     }
 
+    mod_file_content += sub_modules;
+
     write_to_file(&mod_file_content, package_directory, package_name, "mod");
 }
-- 
2.43.0


From 7bb62ec8f03c2fbb7d9ca91605c5c5de79bc2b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:32 +0000
Subject: [PATCH 19/30] fix: schemas with syntax errors and packages defined
 twice are refused

---
 crates/zserio-rs-build/src/internal/model.rs  |  7 +++-
 .../src/internal/model/package.rs             | 40 ++++++++++++++++++-
 2 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/model.rs b/crates/zserio-rs-build/src/internal/model.rs
index 0d13d45..e0cb89e 100644
--- a/crates/zserio-rs-build/src/internal/model.rs
+++ b/crates/zserio-rs-build/src/internal/model.rs
@@ -43,7 +43,12 @@ impl Model {
             file_name = file_name.to_ascii_lowercase();
             if file_name.ends_with(".zs") || file_name.ends_with(".zserio") {
                 let package = package_from_file(&path);
-                packages.insert(package.name.clone(), package);
+                let package_name = package.name.clone();
+                let known_package = packages.insert(package_name.clone(), package);
+                assert!(
+                    known_package.is_none(),
+                    "package {package_name} is defined in more than one file"
+                );
             }
         }
         Model {
diff --git a/crates/zserio-rs-build/src/internal/model/package.rs b/crates/zserio-rs-build/src/internal/model/package.rs
index c0eecb3..d66b588 100644
--- a/crates/zserio-rs-build/src/internal/model/package.rs
+++ b/crates/zserio-rs-build/src/internal/model/package.rs
@@ -4,19 +4,57 @@ use crate::internal::parser::gen::zserioparser::ZserioParser;
 use crate::internal::visitor::Visitor;
 use crate::internal::visitor::ZserioTreeReturnType;
 use antlr_rust::common_token_stream::CommonTokenStream;
+use antlr_rust::error_listener::ErrorListener;
+use antlr_rust::errors::ANTLRError;
+use antlr_rust::recognizer::Recognizer;
+use antlr_rust::token_factory::TokenFactory;
 use antlr_rust::tree::ParseTreeVisitorCompat;
 use antlr_rust::InputStream;
+use antlr_rust::Parser;
+use std::cell::RefCell;
 use std::path::Path;
+use std::rc::Rc;
 
 use std::fs;
 
+/// Collects the messages of all syntax errors of a file.
+struct SyntaxErrorCollector(Rc<RefCell<Vec<String>>>);
+
+impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for SyntaxErrorCollector {
+    fn syntax_error(
+        &self,
+        _recognizer: &T,
+        _offending_symbol: Option<&<T::TF as TokenFactory<'a>>::Inner>,
+        line: isize,
+        column: isize,
+        msg: &str,
+        _e: Option<&ANTLRError>,
+    ) {
+        self.0
+            .borrow_mut()
+            .push(format!("line {}:{} {}", line, column, msg));
+    }
+}
+
 /// Loads a zserio package from a file.
 pub fn package_from_file(path: &Path) -> ZPackage {
     let contents = fs::read_to_string(path).expect("failed to read file");
-    let lexer = ZserioLexer::new(InputStream::new(&*contents));
+    let syntax_errors = Rc::new(RefCell::new(vec![]));
+    let mut lexer = ZserioLexer::new(InputStream::new(&*contents));
+    lexer.add_error_listener(Box::new(SyntaxErrorCollector(syntax_errors.clone())));
     let mut parser = ZserioParser::new(CommonTokenStream::new(lexer));
+    parser.add_error_listener(Box::new(SyntaxErrorCollector(syntax_errors.clone())));
 
     let root = parser.packageDeclaration().unwrap(); //.expect("package declaration failed");
+
+    // The parser recovers from most errors by ignoring a part of the file.
+    assert!(
+        syntax_errors.borrow().is_empty(),
+        "syntax errors in {}: {}",
+        path.display(),
+        syntax_errors.borrow().join(", ")
+    );
+
     let x = ZserioTreeReturnType::Str("".into());
     let result = Visitor(x).visit(&*root);
 
-- 
2.43.0


From 46346439aeea8b81ef01b4b38060e664bcddedcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:47 +0000
Subject: [PATCH 20/30] fix: generated type, field and variant names avoid Self
 and the names the generated modules import

---
 .../src/internal/generator/types.rs           | 29 +++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/types.rs b/crates/zserio-rs-build/src/internal/generator/types.rs
index 0bd2106..8582c19 100644
--- a/crates/zserio-rs-build/src/internal/generator/types.rs
+++ b/crates/zserio-rs-build/src/internal/generator/types.rs
@@ -56,7 +56,13 @@ impl TypeGenerator {
     }
 
     pub fn to_rust_type_name(name: &str) -> String {
-        remove_reserved_identifier(name).to_pascal_case()
+        let identifier = to_rust_type_identifier(name);
+        match identifier.as_str() {
+            // Names which the generated modules import or take from the prelude.
+            "BitReader" | "BitWriter" | "Default" | "DeltaContext" | "Option"
+            | "PackingContextNode" | "Result" | "String" | "Vec" => format!("Z{identifier}"),
+            _ => identifier,
+        }
     }
 
     pub fn custom_type_to_rust_type(name: &str) -> String {
@@ -93,9 +99,20 @@ fn to_rust_identifier(name: &str) -> String {
         "abstract" | "as" | "async" | "await" | "become" | "box" | "break" | "const"
         | "continue" | "crate" | "do" | "dyn" | "else" | "enum" | "extern" | "false" | "final"
         | "fn" | "for" | "gen" | "if" | "impl" | "in" | "let" | "loop" | "macro" | "match"
-        | "mod" | "move" | "mut" | "override" | "priv" | "pub" | "ref" | "return" | "static"
-        | "super" | "trait" | "true" | "try" | "typeof" | "unsafe" | "unsized" | "use"
-        | "virtual" | "where" | "while" | "yield" => format!("z_{identifier}"),
+        | "mod" | "move" | "mut" | "override" | "priv" | "pub" | "ref" | "return" | "self"
+        | "static" | "struct" | "super" | "trait" | "true" | "try" | "type" | "typeof"
+        | "unsafe" | "unsized" | "use" | "virtual" | "where" | "while" | "yield" => {
+            format!("z_{identifier}")
+        }
+        _ => identifier,
+    }
+}
+
+/// Converts a zserio name to a pascal case rust identifier which is not a keyword.
+fn to_rust_type_identifier(name: &str) -> String {
+    let identifier = remove_reserved_identifier(name).to_pascal_case();
+    match identifier.as_str() {
+        "Self" => "ZSelf".into(),
         _ => identifier,
     }
 }
@@ -106,11 +123,11 @@ pub fn to_rust_constant_name(name: &str) -> String {
 }
 
 pub fn convert_to_enum_field_name(name: &str) -> String {
-    remove_reserved_identifier(name).to_pascal_case()
+    to_rust_type_identifier(name)
 }
 
 pub fn convert_to_union_selector_name(field_name: &str) -> String {
-    remove_reserved_identifier(field_name).to_pascal_case()
+    to_rust_type_identifier(field_name)
 }
 
 pub fn convert_to_function_name(name: &str) -> String {
-- 
2.43.0


From 968c7422ee2629eed91f6fb3ecaa79750f286603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:40 +0000
Subject: [PATCH 21/30] fix: subtypes that refer to each other are refused
 instead of compiled forever

---
 .../src/internal/compiler/fundamental_type.rs      | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/compiler/fundamental_type.rs b/crates/zserio-rs-build/src/internal/compiler/fundamental_type.rs
index dc9de37..f4502b6 100644
--- a/crates/zserio-rs-build/src/internal/compiler/fundamental_type.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/fundamental_type.rs
@@ -1,5 +1,6 @@
 use crate::internal::ast::type_reference::TypeReference;
 use crate::internal::compiler::symbol_scope::{ModelScope, Symbol, SymbolReference};
+use std::collections::HashSet;
 
 pub struct FundamentalZserioTypeReference {
     pub fundamental_type: Box<TypeReference>,
@@ -18,6 +19,7 @@ pub fn get_fundamental_type(
     let mut is_marshaler = false;
 
     let mut current_type_ref = type_ref.clone();
+    let mut visited_subtypes = HashSet::new();
 
     loop {
         if current_type_ref.is_builtin {
@@ -39,7 +41,17 @@ pub fn get_fundamental_type(
                 is_marshaler = true;
                 get_symbol_type(&current_symbol_ref)
             }
-            Symbol::Subtype(subtype) => *subtype.borrow().zserio_type.clone(),
+            Symbol::Subtype(subtype) => {
+                assert!(
+                    visited_subtypes.insert((
+                        current_symbol_ref.package.clone(),
+                        subtype.borrow().name.clone()
+                    )),
+                    "cyclic definition of subtype {0}",
+                    subtype.borrow().name
+                );
+                *subtype.borrow().zserio_type.clone()
+            }
             _ => panic!("unexpected type {:?}", current_symbol_ref.symbol),
         };
 
-- 
2.43.0


From 4fd1357b7a2c7ff975d117768e3c118b84dee593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 22/30] fix: fully qualified names and arrays of bytes and
 extern values can be used in expressions

---
 .../src/internal/ast/expression.rs            | 40 ++++++++++++++++++-
 .../src/internal/compiler/symbol_scope.rs     | 37 +++++++++++++++--
 2 files changed, 72 insertions(+), 5 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index c1189ff..f890a93 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -83,6 +83,10 @@ impl Expression {
         );
         self.evaluation_state = EvaluationState::InProgress;
 
+        if self.expression_type == DOT {
+            self.resolve_qualified_name(scope);
+        }
+
         // evaluate all operands. The final expression can only be fully resolved if all operands
         // are also fully resolved.
         self.fully_resolved = true;
@@ -123,6 +127,33 @@ impl Expression {
         self.evaluation_state = EvaluationState::Completed;
     }
 
+    /// If the dot expression is the name of a symbol that states its package, it is replaced by
+    /// the identifier of that symbol.
+    fn resolve_qualified_name(&mut self, scope: &ModelScope) {
+        let symbol = self
+            .get_identifier_path()
+            .and_then(|path| scope.find_qualified_symbol(&path));
+        if symbol.is_some() {
+            self.expression_type = ID;
+            self.text = self.operand2.take().unwrap().text;
+            self.operand1 = None;
+            self.symbol = symbol;
+        }
+    }
+
+    /// Returns the identifiers of a dot expression, e.g. [a, b, c] for a.b.c.
+    fn get_identifier_path(&self) -> Option<Vec<&String>> {
+        match self.expression_type {
+            ID => Some(vec![&self.text]),
+            DOT => {
+                let mut path = self.operand1.as_ref()?.get_identifier_path()?;
+                path.push(&self.operand2.as_ref()?.text);
+                Some(path)
+            }
+            _ => None,
+        }
+    }
+
     fn evaluate_paranthesized_expression(&mut self) {
         match &self.operand1 {
             Some(op1) => {
@@ -625,7 +656,11 @@ impl Expression {
             // value will be evaluated when the complete dot expression is evaluated.
             return;
         }
-        let symbol_reference = scope.resolve_symbol(&self.text, false);
+        let symbol_reference = match self.symbol.take() {
+            // The symbol is already known if the name states its package.
+            Some(symbol_reference) => symbol_reference,
+            None => scope.resolve_symbol(&self.text, false),
+        };
         self.symbol = Option::from(symbol_reference.clone());
         (self.result_type, self.native_type) = symbol_to_expression_type(&symbol_reference, scope);
         self.fully_resolved = false;
@@ -728,6 +763,9 @@ fn type_reference_to_expression_type(
                 ExpressionType::Integer(0),
                 Some(TypeReference::new_native_type(type_ref.name.as_str())),
             )
+        } else if type_ref.name == "bytes" || type_ref.name == "extern" {
+            // These values can't be used in expressions, except for the length of their arrays.
+            (ExpressionType::Other, None)
         } else {
             panic!("failed to determine builtin type reference type");
         }
diff --git a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
index 31373cd..f9eed10 100644
--- a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
@@ -182,6 +182,35 @@ impl ModelScope {
         name: &String,
         ignore_symbol_local_scopes: bool,
     ) -> SymbolReference {
+        self.find_symbol(name, ignore_symbol_local_scopes)
+            .unwrap_or_else(|| panic!("symbol not found: {:?}", name))
+    }
+
+    /// Returns the symbol of a name that states its package, e.g. some.package.Symbol.
+    pub fn find_qualified_symbol(&self, path: &[&String]) -> Option<SymbolReference> {
+        let (name, package_path) = path.split_last()?;
+        let package_name = package_path
+            .iter()
+            .map(|id| id.as_str())
+            .collect::<Vec<_>>()
+            .join(".");
+        let symbol = self
+            .package_scopes
+            .get(&package_name)?
+            .resolve_file_symbol(name)?;
+
+        // A visible symbol takes precedence over a package of the same name.
+        match self.find_symbol(package_path.first()?, false) {
+            Some(_) => None,
+            None => Some(symbol),
+        }
+    }
+
+    fn find_symbol(
+        &self,
+        name: &String,
+        ignore_symbol_local_scopes: bool,
+    ) -> Option<SymbolReference> {
         let evaluation_scope = self.scope_stack.last().unwrap();
         let package_scope = self.package_scopes.get(&evaluation_scope.package).unwrap();
 
@@ -199,11 +228,11 @@ impl ModelScope {
         // Try if the symbol can be found in the current symbol, or in the current package.
         if !ignore_symbol_local_scopes {
             if let Some(symbol) = package_scope.resolve_local_symbol(name, evaluation_scope) {
-                return symbol;
+                return Some(symbol);
             }
         }
         if let Some(symbol) = declaration_scope.resolve_file_symbol(name) {
-            return symbol;
+            return Some(symbol);
         }
 
         // Try to find the symbol in the imported packages.
@@ -229,7 +258,7 @@ impl ModelScope {
                 };
                 if is_visible {
                     if let Some(symbol) = imported_package.resolve_file_symbol(name) {
-                        return symbol;
+                        return Some(symbol);
                     }
                 }
 
@@ -246,7 +275,7 @@ impl ModelScope {
         }
         // If this line is reached, the symbol lookup has failed, and the symbol
         // was not found anywhere.
-        panic!("symbol not found: {:?}", name);
+        None
     }
 
     /// Returns the scope of the package an import refers to.
-- 
2.43.0


From 5997e0c83fe5e4ff37d3593f8c6cdb4ffc93e518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 23/30] fix: widths computed from numerals only are converted
 like all other dynamic bit widths

---
 .../src/internal/generator/decode.rs          | 20 ++-----------------
 .../src/internal/generator/encode.rs          | 10 ++--------
 2 files changed, 4 insertions(+), 26 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index 9c8e94b..8ea2445 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -1,5 +1,6 @@
 use crate::internal::compiler::fundamental_type::FundamentalZserioTypeReference;
 use crate::internal::compiler::symbol_scope::ModelScope;
+use crate::internal::generator::encode::generate_bit_length;
 use crate::internal::generator::expression::{generate_boolean_expression, generate_expression};
 use crate::internal::generator::index_offsets::extract_indexed_offset_expression;
 use crate::internal::generator::packed_contexts::FieldDetails;
@@ -70,24 +71,7 @@ pub fn decode_type(
         } else {
             // non-packed decoding
             if fund_type.bits != 0 || fund_type.length_expression.is_some() {
-                let bit_length_string = match &fund_type.length_expression {
-                    Some(bit_length_expression) => {
-                        let mut length_expression_string = generate_expression(
-                            &bit_length_expression.borrow(),
-                            type_generator,
-                            scope,
-                        );
-                        // check if there is a typecast needed
-                        if let Some(native_type) = &bit_length_expression.borrow().native_type {
-                            if native_type.name != "uint8" {
-                                length_expression_string =
-                                    format!("({}) as u8", length_expression_string);
-                            }
-                        }
-                        length_expression_string
-                    }
-                    None => format!("{}", fund_type.bits),
-                };
+                let bit_length_string = generate_bit_length(scope, type_generator, fund_type);
                 if fund_type.name == "int" {
                     function.line(format!(
                         "{} = ztype::read_signed_bits(reader, {})?;",
diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index 3143069..0509d4e 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -96,15 +96,9 @@ pub fn generate_bit_length(
 ) -> String {
     match &zserio_type.length_expression {
         Some(bit_length_expression) => {
-            let mut length_expression_string =
+            let bit_length =
                 generate_expression(&bit_length_expression.borrow(), type_generator, scope);
-            // check if there is a typecast needed
-            if let Some(native_type) = &bit_length_expression.borrow().native_type {
-                if native_type.name != "uint8" {
-                    length_expression_string = format!("({}) as u8", length_expression_string);
-                }
-            }
-            length_expression_string
+            format!("(({bit_length}) as u8)")
         }
         None => format!("{}", zserio_type.bits),
     }
-- 
2.43.0


From 5db07ba914c232b96d66be8b7880ed1cf50106e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 24/30] fix: objects whose parameters hold a NaN can be encoded

---
 crates/zserio-rs-build/src/internal/generator/encode.rs | 2 +-
 crates/zserio/src/lib.rs                                | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index 0509d4e..c60139a 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -248,7 +248,7 @@ pub fn encode_field(
                 scope,
             );
             function.line(format!(
-                "assert!({}.{} == {});",
+                "assert!(zserio::is_same_parameter(&{}.{}, &({})));",
                 &element_name,
                 TypeGenerator::convert_field_name(&type_parameter.borrow().name),
                 rvalue,
diff --git a/crates/zserio/src/lib.rs b/crates/zserio/src/lib.rs
index e480a32..cbcb6b8 100644
--- a/crates/zserio/src/lib.rs
+++ b/crates/zserio/src/lib.rs
@@ -73,6 +73,14 @@ use rust_bitwriter::BitWriter;
 use std::fs::File;
 use std::path::Path;
 
+/// Compares a parameter of an object with the value it has to have. Other than with `==`, a value
+/// which holds a NaN is the same as itself.
+#[doc(hidden)]
+#[allow(clippy::eq_op)]
+pub fn is_same_parameter<T: PartialEq>(actual: &T, expected: &T) -> bool {
+    actual == expected || (actual != actual && expected != expected)
+}
+
 /// Serialize an instance of `T` to a a byte vector
 ///
 /// # Example
-- 
2.43.0


From 4724bfe6b689f86ab2fe56d69b4aeb09bea4f44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:04 +0000
Subject: [PATCH 25/30] fix: comparisons of large constants and numbits() of an
 unknown value

---
 crates/zserio-rs-build/src/internal/ast/expression.rs     | 8 +++++++-
 .../zserio-rs-build/src/internal/generator/expression.rs  | 3 ++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index f890a93..1f0717f 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -356,7 +356,13 @@ impl Expression {
         match &self.operand1 {
             Some(op1) => match op1.result_type {
                 ExpressionType::Integer(value) => {
-                    self.result_type = ExpressionType::Integer(numbits(value) as i128);
+                    // The operand value is only known if it is fully resolved.
+                    let bits = if op1.fully_resolved {
+                        numbits(value)
+                    } else {
+                        0
+                    };
+                    self.result_type = ExpressionType::Integer(bits as i128);
                     self.fully_resolved = op1.fully_resolved;
                     self.native_type = Some(TypeReference::new_native_type("varsize"));
                 }
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 6813142..5d283e4 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -86,10 +86,11 @@ fn generate_operand(
 ) -> String {
     let code = generate_expression(expression, type_generator, scope);
     match &expression.native_type {
+        // A known value is generated as a numeral, whose rust type depends on the context.
+        _ if expression.fully_resolved => format!("(({code}) as {rust_type})"),
         Some(native_type) if type_generator.ztype_to_rust_type(native_type) != rust_type => {
             format!("(({code}) as {rust_type})")
         }
-        None if expression.fully_resolved => format!("(({code}) as {rust_type})"),
         _ => format!("({code})"),
     }
 }
-- 
2.43.0


From fce0acaaa5a1235a2c26c3748121da4a8640fef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 26/30] fix: expressions can refer to optional fields

---
 .../src/internal/generator/expression.rs      | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 5d283e4..c242c5c 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -222,12 +222,28 @@ fn generate_dot_expression(
                 }
                 _ => panic!("failed to generate right side of field dot expression"),
             };
-            format!("{}.{}", &left_operand, right_side,)
+            let is_optional = match &expression.symbol {
+                Some(symbol_ref) => match &symbol_ref.symbol {
+                    Symbol::Field(f) => f.borrow().is_optional,
+                    _ => false,
+                },
+                None => false,
+            };
+            generate_field_access(format!("{left_operand}.{right_side}"), is_optional)
         }
         _ => panic!("unsupported dot expression {:?}", op1),
     }
 }
 
+/// Generates the value of a field. The value of an optional field is taken out of its Option.
+fn generate_field_access(field: String, is_optional: bool) -> String {
+    if is_optional {
+        format!("(*{field}.as_ref().unwrap())")
+    } else {
+        field
+    }
+}
+
 fn generate_isset_expression(
     expression: &Expression,
     type_generator: &mut TypeGenerator,
@@ -291,10 +307,8 @@ fn generate_identifier_expression(
     // check for early returns, where no full type addressing is needed.
     match &symbol_ref.symbol {
         Symbol::Field(f) => {
-            return format!(
-                "self.{}",
-                TypeGenerator::convert_field_name(&f.borrow().name),
-            );
+            let field_name = TypeGenerator::convert_field_name(&f.borrow().name);
+            return generate_field_access(format!("self.{field_name}"), f.borrow().is_optional);
         }
         Symbol::Parameter(p) => {
             return format!(
-- 
2.43.0


From b007f28564b58b984a3351d4d60c72340bf8b24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 27/30] fix: octal escape sequences in strings

---
 crates/zserio-rs-build/src/internal/visitor.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index d6d235b..427d27d 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -1594,7 +1594,7 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
 /// Replaces the escape sequences of a string literal by the characters they stand for.
 fn unescape_string(text: &str) -> String {
     let mut result = String::new();
-    let mut chars = text.chars();
+    let mut chars = text.chars().peekable();
     while let Some(c) = chars.next() {
         if c != '\\' {
             result.push(c);
@@ -1617,6 +1617,19 @@ fn unescape_string(text: &str) -> String {
                 result.push('\u{c}');
                 continue;
             }
+            '0' => {
+                // an octal escape sequence, with up to three digits
+                let mut code = 0;
+                for _ in 0..2 {
+                    let Some(digit) = chars.peek().and_then(|c| c.to_digit(8)) else {
+                        break;
+                    };
+                    code = code * 8 + digit;
+                    chars.next();
+                }
+                result.push(char::from_u32(code).expect("octal codes are valid characters"));
+                continue;
+            }
             'u' => 4,
             'x' => 2,
             other => {
-- 
2.43.0


From 6a71a7c1b27f182b26f03367888ea1ee5bfb3aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 28/30] fix: accept comments before the package declaration

---
 .../src/internal/model/package.rs                | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/model/package.rs b/crates/zserio-rs-build/src/internal/model/package.rs
index d66b588..77ea73b 100644
--- a/crates/zserio-rs-build/src/internal/model/package.rs
+++ b/crates/zserio-rs-build/src/internal/model/package.rs
@@ -6,8 +6,11 @@ use crate::internal::visitor::ZserioTreeReturnType;
 use antlr_rust::common_token_stream::CommonTokenStream;
 use antlr_rust::error_listener::ErrorListener;
 use antlr_rust::errors::ANTLRError;
+use antlr_rust::int_stream::IntStream;
 use antlr_rust::recognizer::Recognizer;
+use antlr_rust::token::{Token, TOKEN_DEFAULT_CHANNEL};
 use antlr_rust::token_factory::TokenFactory;
+use antlr_rust::token_stream::TokenStream;
 use antlr_rust::tree::ParseTreeVisitorCompat;
 use antlr_rust::InputStream;
 use antlr_rust::Parser;
@@ -42,7 +45,18 @@ pub fn package_from_file(path: &Path) -> ZPackage {
     let syntax_errors = Rc::new(RefCell::new(vec![]));
     let mut lexer = ZserioLexer::new(InputStream::new(&*contents));
     lexer.add_error_listener(Box::new(SyntaxErrorCollector(syntax_errors.clone())));
-    let mut parser = ZserioParser::new(CommonTokenStream::new(lexer));
+    let mut tokens = CommonTokenStream::new(lexer);
+
+    // Comments are on a channel of their own, which the token stream only skips
+    // when it advances. Do the same for comments at the beginning of the file.
+    if tokens
+        .lt(1)
+        .is_some_and(|token| token.get_channel() != TOKEN_DEFAULT_CHANNEL)
+    {
+        tokens.consume();
+    }
+
+    let mut parser = ZserioParser::new(tokens);
     parser.add_error_listener(Box::new(SyntaxErrorCollector(syntax_errors.clone())));
 
     let root = parser.packageDeclaration().unwrap(); //.expect("package declaration failed");
-- 
2.43.0


From 804094b966662f63e1107babe995d21120bf7c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 29/30] fix: packed values that leave the range of their type
 are refused

---
 crates/zserio/src/ztype/array_traits/array_trait.rs    |  6 ++++++
 .../src/ztype/array_traits/bit_field_array_trait.rs    |  7 +++++++
 crates/zserio/src/ztype/array_traits/delta_context.rs  | 10 +++++++++-
 .../array_traits/unsigned_bit_field_array_trait.rs     |  7 +++++++
 .../src/ztype/array_traits/varsize_array_trait.rs      |  4 ++++
 5 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/crates/zserio/src/ztype/array_traits/array_trait.rs b/crates/zserio/src/ztype/array_traits/array_trait.rs
index 47a0d1e..b993480 100644
--- a/crates/zserio/src/ztype/array_traits/array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/array_trait.rs
@@ -20,6 +20,12 @@ pub trait ArrayTrait<T> {
         self.to_u64(value) as i128
     }
 
+    // Tells if the type of the array can represent a value. Values that are calculated from deltas
+    // can be out of the range of the type.
+    fn is_representable(&self, value: &T) -> bool {
+        self.bitsize_of(0, value).is_ok()
+    }
+
     // all functions below are for using packed contexts. They provide a default implementation
     // for array traits using delta contexts.
     fn create_context(&self) -> PackingContextNode {
diff --git a/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs b/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs
index b9b2afa..2d06fd0 100644
--- a/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs
@@ -48,6 +48,13 @@ impl array_trait::ArrayTrait<name> for BitFieldArrayTrait {
     fn from_u64(&self, value: u64) -> name {
         value as name
     }
+    fn is_representable(&self, value: &name) -> bool {
+        match self.num_bits {
+            0 => *value == 0,
+            1..=64 => matches!((*value as i64) >> (self.num_bits - 1), 0 | -1),
+            _ => false,
+        }
+    }
 
     fn init_context(&self, context_node: &mut PackingContextNode, element: &name) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
diff --git a/crates/zserio/src/ztype/array_traits/delta_context.rs b/crates/zserio/src/ztype/array_traits/delta_context.rs
index c26387a..3cf1bd7 100644
--- a/crates/zserio/src/ztype/array_traits/delta_context.rs
+++ b/crates/zserio/src/ztype/array_traits/delta_context.rs
@@ -1,5 +1,5 @@
 use crate::bit_length;
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use crate::ztype::array_traits::array_trait::ArrayTrait;
 use crate::ztype::bits_decode::read_signed_bits;
 use crate::ztype::{self, read_unsigned_bits};
@@ -42,6 +42,9 @@ impl DeltaContext {
     }
 
     pub fn init<T>(&mut self, array_trait: &dyn ArrayTrait<T>, element: &T) -> Result<()> {
+        if !array_trait.is_representable(element) {
+            return Err(ZserioError::DataDoesNotFit);
+        }
         self.num_elements += 1;
         self.unpacked_size += array_trait.bitsize_of(0, element)?;
 
@@ -107,6 +110,11 @@ impl DeltaContext {
             self.previous_element += delta as i128;
         }
         *value = array_traits.from_u64(self.previous_element as u64);
+        if array_traits.to_i128(value) != self.previous_element
+            || !array_traits.is_representable(value)
+        {
+            return Err(ZserioError::DataDoesNotFit);
+        }
         Ok(())
     }
 
diff --git a/crates/zserio/src/ztype/array_traits/unsigned_bit_field_array_trait.rs b/crates/zserio/src/ztype/array_traits/unsigned_bit_field_array_trait.rs
index e3bc227..46410ac 100644
--- a/crates/zserio/src/ztype/array_traits/unsigned_bit_field_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/unsigned_bit_field_array_trait.rs
@@ -45,6 +45,13 @@ impl array_trait::ArrayTrait<name> for UnsignedBitFieldArrayTrait {
     fn from_u64(&self, value: u64) -> name {
         value as name
     }
+    fn is_representable(&self, value: &name) -> bool {
+        match self.num_bits {
+            0..=63 => (*value as u64) >> self.num_bits == 0,
+            64 => true,
+            _ => false,
+        }
+    }
 
     fn init_context(&self, context_node: &mut PackingContextNode, element: &name) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
diff --git a/crates/zserio/src/ztype/array_traits/varsize_array_trait.rs b/crates/zserio/src/ztype/array_traits/varsize_array_trait.rs
index cce8e78..7b72971 100644
--- a/crates/zserio/src/ztype/array_traits/varsize_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/varsize_array_trait.rs
@@ -2,6 +2,7 @@ use crate::error::Result;
 use crate::ztype;
 use crate::ztype::array_traits::array_trait;
 use crate::ztype::array_traits::packing_context_node::PackingContextNode;
+use crate::ztype::varuint_encode::MAX_VARSIZE;
 use bitreader::BitReader;
 use rust_bitwriter::BitWriter;
 
@@ -39,6 +40,9 @@ impl array_trait::ArrayTrait<u32> for VarSizeArrayTrait {
     fn from_u64(&self, value: u64) -> u32 {
         value as u32
     }
+    fn is_representable(&self, value: &u32) -> bool {
+        *value <= MAX_VARSIZE
+    }
 
     fn init_context(&self, context_node: &mut PackingContextNode, element: &u32) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
-- 
2.43.0


From 47219eceb143860691b105facd75b17d3611d4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:18 +0000
Subject: [PATCH 30/30] fix: dynamic bit widths beyond 255 are refused instead
 of wrapped

---
 crates/zserio-rs-build/src/internal/generator/array.rs  | 7 ++++---
 crates/zserio-rs-build/src/internal/generator/encode.rs | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/array.rs b/crates/zserio-rs-build/src/internal/generator/array.rs
index bb35417..5e41cd6 100644
--- a/crates/zserio-rs-build/src/internal/generator/array.rs
+++ b/crates/zserio-rs-build/src/internal/generator/array.rs
@@ -2,6 +2,7 @@ use crate::internal::ast::field::Field;
 use crate::internal::ast::type_reference::TypeReference;
 use crate::internal::compiler::fundamental_type::get_fundamental_type;
 use crate::internal::compiler::symbol_scope::ModelScope;
+use crate::internal::generator::encode::generate_bit_length;
 use crate::internal::generator::expression::generate_expression;
 use crate::internal::generator::types::TypeGenerator;
 use codegen::Function;
@@ -60,10 +61,10 @@ pub fn initialize_array_trait(
     // check if the array traits need initialization
     if zserio_type.is_builtin {
         // Initialize the signed/unsigned bitfield array traits
-        if let Some(length_expression) = &zserio_type.length_expression {
+        if zserio_type.length_expression.is_some() {
             code_str += format!(
-                "num_bits: ({}) as u8,\n",
-                generate_expression(&length_expression.borrow(), type_generator, scope)
+                "num_bits: {},\n",
+                generate_bit_length(scope, type_generator, zserio_type)
             )
             .as_str();
         } else {
diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index c60139a..5ad0e85 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -98,7 +98,8 @@ pub fn generate_bit_length(
         Some(bit_length_expression) => {
             let bit_length =
                 generate_expression(&bit_length_expression.borrow(), type_generator, scope);
-            format!("(({bit_length}) as u8)")
+            // Widths which do not fit are refused by the functions that use them.
+            format!("((({bit_length}) as u128).min(255) as u8)")
         }
         None => format!("{}", zserio_type.bits),
     }
-- 
2.43.0

