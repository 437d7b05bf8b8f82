From fd04f3e4a76939da755f08ba566c1aba66513332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:23 +0000
Subject: [PATCH 01/99] fix: Scalar unary minus computes the negative instead
 of returning zero

---
 scalars/src/scalar/arithmetic.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index d1f0478..0aa7d28 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -54,7 +54,14 @@ using rpy::scalars::dtl::ScalarContentType;
 
 static inline void
 uminus_impl(void* dst, const void* ptr, const devices::TypeInfo& info)
-{}
+{
+#define X(T)                                                                   \
+    *static_cast<T*>(dst) = static_cast<T>(-*static_cast<const T*>(ptr));      \
+    return
+    DO_FOR_EACH_X(info)
+#undef X
+    RPY_THROW(std::domain_error, "unsupported operation");
+}
 
 Scalar Scalar::operator-() const
 {
@@ -85,6 +92,8 @@ Scalar Scalar::operator-() const
                 break;
             case ScalarContentType::Interface:
             case ScalarContentType::OwnedInterface:
+                stype = type();
+                RPY_CHECK(stype);
                 result.p_type_and_content_type = type_pointer(
                         *stype,
                         dtl::ScalarContentType::OwnedPointer
-- 
2.43.0


From a13fdf704bec5fd22e0c1d990486d2c3c5bdb19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:23 +0000
Subject: [PATCH 02/99] fix: Scalar division dispatches on the type of the
 quotient after promotion

---
 scalars/src/scalar/arithmetic.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index 0aa7d28..d19bc63 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -317,10 +317,11 @@ Scalar& Scalar::operator/=(const Scalar& other)
         ));
     }
 
-    // Now we should be ready
+    // Now we should be ready, the type might have been changed above
+    const auto result_info = type_info();
 #define X(tp) do_divide((tp*) mut_pointer(), rational_denom.pointer(), rat_denom_info);\
     break
-    DO_FOR_EACH_X(num_info)
+    DO_FOR_EACH_X(result_info)
 #undef X
 
     return *this;
-- 
2.43.0


From 29688c5c5147ffffc58698f81f9b3586dd8f41c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:23 +0000
Subject: [PATCH 03/99] fix: dividing an algebra element by a Scalar divides
 instead of multiplying

---
 roughpy/src/algebra/setup_algebra_type.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/roughpy/src/algebra/setup_algebra_type.h b/roughpy/src/algebra/setup_algebra_type.h
index a8e3de5..afa7ad1 100644
--- a/roughpy/src/algebra/setup_algebra_type.h
+++ b/roughpy/src/algebra/setup_algebra_type.h
@@ -112,7 +112,7 @@ void setup_algebra_type(py::class_<Alg, Args...>& klass)
     klass.def("__add__", &Alg::add, py::is_operator());
     klass.def("__sub__", &Alg::sub, py::is_operator());
     klass.def("__mul__", &Alg::smul, py::is_operator());
-    klass.def("__truediv__", &Alg::smul, py::is_operator());
+    klass.def("__truediv__", &Alg::sdiv, py::is_operator());
     klass.def("__mul__", &Alg::mul, py::is_operator());
     klass.def(
             "__rmul__",
-- 
2.43.0


From e090dd5da7ae822f6543ecdf68fbabceaf147650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:58 +0000
Subject: [PATCH 04/99] fix: coefficients read from Python own their value
 instead of pointing into the element

---
 roughpy/src/algebra/algebra_iterator.cpp | 6 +++++-
 roughpy/src/algebra/free_tensor.cpp      | 7 +++++--
 roughpy/src/algebra/lie.cpp              | 7 +++++--
 roughpy/src/algebra/shuffle_tensor.cpp   | 7 +++++--
 4 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/roughpy/src/algebra/algebra_iterator.cpp b/roughpy/src/algebra/algebra_iterator.cpp
index f553e5f..3b9a5a3 100644
--- a/roughpy/src/algebra/algebra_iterator.cpp
+++ b/roughpy/src/algebra/algebra_iterator.cpp
@@ -53,7 +53,11 @@ static void init_iterator(py::module_& m, const char* iter_name)
     klass.def("key", [](const AlgebraIteratorItem<Algebra>& item) {
         return KeyType(item.basis(), item.key());
     });
-    klass.def("value", &AlgebraIteratorItem<Algebra>::value);
+    klass.def("value", [](const AlgebraIteratorItem<Algebra>& item) {
+        // Copy, so the result does not refer to memory owned by the algebra
+        const scalars::Scalar ref = item.value();
+        return scalars::Scalar(ref);
+    });
 }
 
 #define MAKE_ITERATOR_TYPE(ALG, KEY)                                           \
diff --git a/roughpy/src/algebra/free_tensor.cpp b/roughpy/src/algebra/free_tensor.cpp
index 3de0545..1767b7e 100644
--- a/roughpy/src/algebra/free_tensor.cpp
+++ b/roughpy/src/algebra/free_tensor.cpp
@@ -174,10 +174,13 @@ void python::init_free_tensor(py::module_& m)
     python::setup_algebra_type(klass);
 
     klass.def("__getitem__", [](const FreeTensor& self, key_type key) {
-        return self[key];
+        // Copy, so the result does not refer to memory owned by self
+        const scalars::Scalar ref = self[key];
+        return scalars::Scalar(ref);
     });
     klass.def("__getitem__", [](const FreeTensor& self, const PyTensorKey& tkey) {
-             return self[static_cast<key_type>(tkey)];
+             const scalars::Scalar ref = self[static_cast<key_type>(tkey)];
+             return scalars::Scalar(ref);
          });
 
     klass.def("exp", &FreeTensor::exp, "Computes the truncated exponential of a :class:`~FreeTensor` instance.");
diff --git a/roughpy/src/algebra/lie.cpp b/roughpy/src/algebra/lie.cpp
index eedb20e..e5a30b9 100644
--- a/roughpy/src/algebra/lie.cpp
+++ b/roughpy/src/algebra/lie.cpp
@@ -166,10 +166,13 @@ void python::init_lie(py::module_& m)
     setup_algebra_type(klass);
 
     klass.def("__getitem__", [](const Lie& self, key_type key) {
-        return self[key];
+        // Copy, so the result does not refer to memory owned by self
+        const scalars::Scalar ref = self[key];
+        return scalars::Scalar(ref);
     });
     klass.def("__getitem__", [](const Lie& self, const PyLieKey& lkey) {
-             return self[static_cast<key_type>(lkey)];
+             const scalars::Scalar ref = self[static_cast<key_type>(lkey)];
+             return scalars::Scalar(ref);
          });
 
     klass.def("__repr__", [](const Lie& self) {
diff --git a/roughpy/src/algebra/shuffle_tensor.cpp b/roughpy/src/algebra/shuffle_tensor.cpp
index c53a22b..531ce97 100644
--- a/roughpy/src/algebra/shuffle_tensor.cpp
+++ b/roughpy/src/algebra/shuffle_tensor.cpp
@@ -198,10 +198,13 @@ void rpy::python::init_shuffle_tensor(py::module_& m)
     setup_algebra_type(klass);
 
     klass.def("__getitem__", [](const ShuffleTensor& self, key_type key) {
-        return self[key];
+        // Copy, so the result does not refer to memory owned by self
+        const scalars::Scalar ref = self[key];
+        return scalars::Scalar(ref);
     });
     klass.def("__getitem__", [](const ShuffleTensor& self, const PyTensorKey& tkey) {
-             return self[static_cast<key_type>(tkey)];
+             const scalars::Scalar ref = self[static_cast<key_type>(tkey)];
+             return scalars::Scalar(ref);
          });
 
 
-- 
2.43.0


From 0103142fe27369ca125350582b35c9c65392d179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:33 +0000
Subject: [PATCH 05/99] fix: reading a dense coefficient beyond the stored
 degrees gives zero instead of reading past the end

---
 vendored/libalgebra_lite/dense_vector.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vendored/libalgebra_lite/dense_vector.h b/vendored/libalgebra_lite/dense_vector.h
index 7035518..e3e1a84 100644
--- a/vendored/libalgebra_lite/dense_vector.h
+++ b/vendored/libalgebra_lite/dense_vector.h
@@ -198,7 +198,9 @@ public:
     template <typename Index>
     const_reference operator[](Index idx) const noexcept
     {
-        return m_storage[p_basis->key_to_index(idx)];
+        auto key = p_basis->key_to_index(idx);
+        if (key >= m_storage.size()) { return coefficient_ring::zero(); }
+        return m_storage[key];
     }
 
     pointer as_mut_ptr() noexcept { return m_storage.data(); }
-- 
2.43.0


From 8d8fc44368ea6e4a7a30f075ba3ca25d0946603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:00 +0000
Subject: [PATCH 06/99] fix: a LieKey names its own Hall element when used to
 index a Lie element

The offsets to the branches were taken from the wrong position, so every bracket
was converted to another key or to the key of a letter.
---
 roughpy/src/algebra/lie_key.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/roughpy/src/algebra/lie_key.cpp b/roughpy/src/algebra/lie_key.cpp
index 12a0a8e..e2587fa 100644
--- a/roughpy/src/algebra/lie_key.cpp
+++ b/roughpy/src/algebra/lie_key.cpp
@@ -484,8 +484,10 @@ optional<key_type> to_internal_key_recurse(const algebra::LieBasis& basis, const
 
     optional<key_type> result;
 
-    auto left = to_internal_key_recurse(basis, base + static_cast<dimn_t>(*base));
-    auto right = to_internal_key_recurse(basis, ++base);
+    // The offset leads to the pair of branches of this node
+    const auto* pair = base + static_cast<dimn_t>(*base);
+    auto left = to_internal_key_recurse(basis, pair);
+    auto right = to_internal_key_recurse(basis, pair + 1);
 
     if (left && right) {
         result = basis.child(*left, *right);
@@ -502,10 +504,13 @@ python::PyLieKey::operator key_type() const noexcept {
         return static_cast<key_type>(m_data[0]);
     }
 
-    auto combined = to_internal_key_recurse(m_basis, m_data.data());
+    // The first two entries are the two branches of the root
+    auto left = to_internal_key_recurse(m_basis, m_data.data());
+    auto right = to_internal_key_recurse(m_basis, m_data.data() + 1);
 
-    if (combined) {
-        return *combined;
+    if (left && right) {
+        auto combined = m_basis.child(*left, *right);
+        if (combined) { return *combined; }
     }
 
     return 0;
-- 
2.43.0


From ffa66a3e6e406260907ca42f04492b4d986e017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:00 +0000
Subject: [PATCH 07/99] fix: arithmetic between a Scalar and an algebra
 element, and division of a Scalar, are defined

The operators of Scalar raised TypeError instead of returning NotImplemented, which hid the
reflected operators of the algebra types; division was only defined under its Python 2 names.
---
 roughpy/src/scalars/scalars.cpp | 68 ++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/roughpy/src/scalars/scalars.cpp b/roughpy/src/scalars/scalars.cpp
index 5532c19..0ed1306 100644
--- a/roughpy/src/scalars/scalars.cpp
+++ b/roughpy/src/scalars/scalars.cpp
@@ -122,95 +122,95 @@ void python::init_scalars(pybind11::module_& m)
 
     klass.def("__add__", [](const Scalar& self, const Scalar& other) {
         return self + other;
-    });
+    }, py::is_operator());
     klass.def("__add__", [](const Scalar& self, scalar_t other) {
         return self + Scalar(other);
-    });
+    }, py::is_operator());
     klass.def("__add__", [](const Scalar& self, long long other) {
         return self + Scalar(other);
-    });
+    }, py::is_operator());
     klass.def("__radd__", [](const Scalar& self, scalar_t other) {
         return Scalar(other) + self;
-    });
+    }, py::is_operator());
     klass.def("__radd__", [](const Scalar& self, long long other) {
         return Scalar(other) + self;
-    });
+    }, py::is_operator());
     klass.def("__iadd__", [](Scalar& self, const Scalar& other) {
         return self += other;
-    });
+    }, py::is_operator());
     klass.def("__iadd__", [](Scalar& self, scalar_t other) {
         return self += Scalar(other);
-    });
+    }, py::is_operator());
     klass.def("__iadd__", [](Scalar& self, long long other) {
         return self += Scalar(other);
-    });
+    }, py::is_operator());
 
     klass.def("__sub__", [](const Scalar& self, scalar_t other) {
         return self - Scalar(other);
-    });
+    }, py::is_operator());
     klass.def("__sub__", [](const Scalar& self, long long other) {
         return self - Scalar(other);
-    });
+    }, py::is_operator());
     klass.def("__rsub__", [](const Scalar& self, scalar_t other) {
         return Scalar(other) - self;
-    });
+    }, py::is_operator());
     klass.def("__rsub__", [](const Scalar& self, long long other) {
         return Scalar(other) - self;
-    });
+    }, py::is_operator());
     klass.def("__isub__", [](Scalar& self, scalar_t other) {
         return self -= Scalar(other);
-    });
+    }, py::is_operator());
     klass.def("__isub__", [](Scalar& self, long long other) {
         return self -= Scalar(other);
-    });
+    }, py::is_operator());
 
     klass.def("__mul__", [](const Scalar& self, const Scalar& other) {
         return self * other;
-    });
+    }, py::is_operator());
     klass.def("__mul__", [](const Scalar& self, scalar_t other) {
         return self * Scalar(other);
-    });
+    }, py::is_operator());
     klass.def("__mul__", [](const Scalar& self, long long other) {
         return self * Scalar(other);
-    });
+    }, py::is_operator());
     klass.def("__rmul__", [](const Scalar& self, scalar_t other) {
         return Scalar(other) * self;
-    });
+    }, py::is_operator());
     klass.def("__rmul__", [](const Scalar& self, long long other) {
         return Scalar(other) * self;
-    });
+    }, py::is_operator());
     klass.def("__imul__", [](Scalar& self, const Scalar& other) {
         return self *= other;
-    });
+    }, py::is_operator());
     klass.def("__imul__", [](Scalar& self, scalar_t other) {
         return self *= Scalar(other);
-    });
+    }, py::is_operator());
     klass.def("__imul__", [](Scalar& self, long long other) {
         return self *= Scalar(other);
-    });
+    }, py::is_operator());
 
-    klass.def("__div__", [](const Scalar& self, scalar_t other) {
+    klass.def("__truediv__", [](const Scalar& self, scalar_t other) {
         if (other == 0.0) { throw py::value_error("division by zero"); }
         return self / Scalar(other);
-    });
-    klass.def("__div__", [](const Scalar& self, long long other) {
+    }, py::is_operator());
+    klass.def("__truediv__", [](const Scalar& self, long long other) {
         if (other == 0) { throw py::value_error("division by zero"); }
         return self / Scalar(other);
-    });
-    klass.def("__rdiv__", [](const Scalar& self, scalar_t other) {
+    }, py::is_operator());
+    klass.def("__rtruediv__", [](const Scalar& self, scalar_t other) {
         return Scalar(other) / self;
-    });
-    klass.def("__rdiv__", [](const Scalar& self, long long other) {
+    }, py::is_operator());
+    klass.def("__rtruediv__", [](const Scalar& self, long long other) {
         return Scalar(other) / self;
-    });
-    klass.def("__idiv__", [](Scalar& self, scalar_t other) {
+    }, py::is_operator());
+    klass.def("__itruediv__", [](Scalar& self, scalar_t other) {
         if (other == 0.0) { throw py::value_error("division by zero"); }
         return self /= Scalar(other);
-    });
-    klass.def("__idiv__", [](Scalar& self, long long other) {
+    }, py::is_operator());
+    klass.def("__itruediv__", [](Scalar& self, long long other) {
         if (other == 0) { throw py::value_error("division by zero"); }
         return self /= Scalar(other);
-    });
+    }, py::is_operator());
 
     klass.def("__eq__", [](const Scalar& lhs, const Scalar& rhs) {
         return lhs == rhs;
-- 
2.43.0


From 1bd223df3104f2fc14e42c2de6cd53cb5ed7e4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:44 +0000
Subject: [PATCH 08/99] fix: the adjoint of multiplication by a tensor is right
 for sparse tensors and keeps the degree of dense ones

The suffix of a word was computed with the wrong power of the width, the sparse case discarded
every term, a sparse multiplier read the wrong degrees of a dense argument, and dense results
were recorded as having degree zero.
---
 vendored/libalgebra_lite/free_tensor.h  | 12 ++++++++----
 vendored/libalgebra_lite/tensor_basis.h |  2 +-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/vendored/libalgebra_lite/free_tensor.h b/vendored/libalgebra_lite/free_tensor.h
index 8153b65..bf9f0ff 100644
--- a/vendored/libalgebra_lite/free_tensor.h
+++ b/vendored/libalgebra_lite/free_tensor.h
@@ -969,9 +969,10 @@ private:
         using s_t = typename coefficient_ring::scalar_type;
         for (auto&& pr : mul) {
             const auto& val = pr.value();
+            if (val == coefficient_ring::zero()) { continue; }
             result.inplace_binary_op(
                     shift_down(arg, pr.key()),
-                    [&val](const s_t& l, const s_t& r) { return l + val * r; }
+                    [&val](s_t& l, const s_t& r) { l += val * r; }
             );
         }
     }
@@ -988,7 +989,8 @@ private:
         const auto& powers = basis.powers();
 
         const auto arg_deg = arg.degree();
-        result.resize_exact(basis.size(arg_deg));
+        if (arg.empty()) { return; }
+        result.resize_exact(basis.size(arg_deg), arg_deg);
 
         for (auto&& pr : mul) {
             const auto key = pr.key();
@@ -1000,7 +1002,8 @@ private:
                 auto suffix_degree = degree - prefix_degree;
                 auto* optr = result.as_mut_ptr()
                         + basis.start_of_degree(suffix_degree);
-                const auto* iptr = arg.as_ptr() + index * powers[suffix_degree];
+                const auto* iptr = arg.as_ptr() + basis.start_of_degree(degree)
+                        + index * powers[suffix_degree];
 
                 for (dimn_t i = 0; i < powers[suffix_degree]; ++i) {
                     optr[i] += value * iptr[i];
@@ -1025,7 +1028,8 @@ private:
         const auto arg_deg = arg.degree();
         const auto param_deg = mul.degree();
         const auto target_deg = std::min(arg_deg, param_deg);
-        result.resize_exact(sizes[arg_deg]);
+        if (arg.empty() || mul.empty()) { return; }
+        result.resize_exact(sizes[arg_deg], arg_deg);
 
         auto* optr = result.as_mut_ptr();
         const auto* aptr = arg.as_ptr();
diff --git a/vendored/libalgebra_lite/tensor_basis.h b/vendored/libalgebra_lite/tensor_basis.h
index ca4d8e6..4491c85 100644
--- a/vendored/libalgebra_lite/tensor_basis.h
+++ b/vendored/libalgebra_lite/tensor_basis.h
@@ -61,7 +61,7 @@ public:
         auto tmp = arg.index();
         auto letter = tmp / m_powers[degree - 1];
         return {key_type(1, letter),
-                key_type(degree - 1, tmp - letter * m_width)};
+                key_type(degree - 1, tmp - letter * m_powers[degree - 1])};
     }
 
     std::string key_to_string(const key_type&) const;
-- 
2.43.0


From a2d29c8ea638577ff0ad8f889c3d1b2fb9a7fa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:11 +0000
Subject: [PATCH 09/99] fix: converting a sparse element to a context of
 smaller depth drops the keys beyond it

Only the number of terms was limited, so keys past the end of the target basis were written
outside it while terms inside it could be lost.
---
 algebra/src/lite_context.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/algebra/src/lite_context.h b/algebra/src/lite_context.h
index 5ca211f..bc27e0a 100644
--- a/algebra/src/lite_context.h
+++ b/algebra/src/lite_context.h
@@ -452,12 +452,13 @@ OutType LiteContext<Coefficients>::construct_impl(
 
     Slice<const scalar_type> raw_data;
 
-    const auto size = std::min(data.data.size(), basis->size(-1));
+    const auto data_size = data.data.size();
+    const auto basis_size = basis->size(-1);
     std::vector<scalar_type> tmp;
     const auto* this_type = ctype();
     if (data.data.type() != this_type) {
-        tmp.resize(data.data.size());
-        scalars::ScalarArray tmp_sa(this_type, tmp.data(), size);
+        tmp.resize(data_size);
+        scalars::ScalarArray tmp_sa(this_type, tmp.data(), data_size);
         this_type->convert_copy(tmp_sa, data.data);
         raw_data = tmp;
     } else {
@@ -468,13 +469,17 @@ OutType LiteContext<Coefficients>::construct_impl(
         // Sparse data
         const auto* keys = data.data.keys();
 
-        for (dimn_t i = 0; i < size; ++i) {
-            result[basis->index_to_key(keys[i])] = raw_data[i];
+        for (dimn_t i = 0; i < data_size; ++i) {
+            // Keys past the end of the basis are truncated away
+            if (keys[i] < basis_size) {
+                result[basis->index_to_key(keys[i])] = raw_data[i];
+            }
         }
 
     } else {
         // Dense data
 
+        const auto size = std::min(data_size, basis_size);
         for (dimn_t i = 0; i < size; ++i) {
             // Replace this with a more efficient method once it's implemented
             // at the lower level
-- 
2.43.0


From 6c80a8c608d11cae79f01de171b3a4b939227d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:19 +0000
Subject: [PATCH 10/99] fix: Context.compute_signature reads its arguments

The addresses given to the argument parser were null pointers, so every call crashed.
---
 roughpy/src/algebra/context.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/roughpy/src/algebra/context.cpp b/roughpy/src/algebra/context.cpp
index 9ba2bcc..7b1c48b 100644
--- a/roughpy/src/algebra/context.cpp
+++ b/roughpy/src/algebra/context.cpp
@@ -164,21 +164,24 @@ RPyContext_compute_signature(PyObject* self, PyObject* args, PyObject* kwargs)
     static const char* kwords[] = {"data", "vtype", nullptr};
     const auto& ctx = ctx_cast(self);
 
-    py::handle py_data;
-    py::handle py_vtype;
+    PyObject* data_arg = nullptr;
+    PyObject* vtype_arg = nullptr;
 
     if (!PyArg_ParseTupleAndKeywords(
                 args,
                 kwargs,
                 "O|O!",
                 const_cast<char**>(kwords),
-                py_data.ptr(),
+                &data_arg,
                 py::type::of<VectorType>().ptr(),
-                py_vtype.ptr()
+                &vtype_arg
         )) {
         return nullptr;
     }
 
+    py::handle py_data(data_arg);
+    py::handle py_vtype(vtype_arg);
+
     python::DataArgOptions options;
     options.allow_scalar = false;
     options.max_nested = 2;
-- 
2.43.0


From 5ceac1b729ede17132163cb3d9ca61b57a9e1354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:16 +0000
Subject: [PATCH 11/99] fix: Context methods raise Python exceptions instead of
 terminating the process

---
 roughpy/src/algebra/context.cpp | 39 +++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/roughpy/src/algebra/context.cpp b/roughpy/src/algebra/context.cpp
index 7b1c48b..0189e26 100644
--- a/roughpy/src/algebra/context.cpp
+++ b/roughpy/src/algebra/context.cpp
@@ -43,6 +43,36 @@ using namespace pybind11::literals;
 using rpy::python::ctx_cast;
 using rpy::python::RPyContext;
 
+namespace {
+
+/*
+ * The methods of Context are plain C functions, so C++ exceptions have to be
+ * translated into Python exceptions before they leave.
+ */
+template <auto Function>
+struct Guarded;
+
+template <typename... Args, PyObject* (*Function)(Args...)>
+struct Guarded<Function> {
+    static PyObject* call(Args... args) noexcept
+    {
+        try {
+            return Function(args...);
+        } catch (py::error_already_set& exc) {
+            exc.restore();
+        } catch (py::builtin_exception& exc) {
+            exc.set_error();
+        } catch (std::invalid_argument& exc) {
+            PyErr_SetString(PyExc_ValueError, exc.what());
+        } catch (std::exception& exc) {
+            PyErr_SetString(PyExc_RuntimeError, exc.what());
+        }
+        return nullptr;
+    }
+};
+
+}// namespace
+
 extern "C" {
 
 static const char* lie_size_DOC = R"rpydoc(A shortcut for :py:meth:`lie_basis.size`. )rpydoc";
@@ -135,11 +165,15 @@ RPyContext_cbh(PyObject* self, PyObject* args, PyObject* kwargs)
     }
 
     const auto num_lies = PySequence_Size(py_lies);
+    if (num_lies < 0) { return nullptr; }
     std::vector<Lie> lies;
     lies.reserve(num_lies);
 
     for (Py_ssize_t i = 0; i < num_lies; ++i) {
-        py::handle py_lie(PySequence_ITEM(py_lies, i));
+        auto py_lie = py::reinterpret_steal<py::object>(
+                PySequence_GetItem(py_lies, i)
+        );
+        if (!py_lie) { return nullptr; }
         lies.push_back(py_lie.cast<Lie&>().borrow_mut());
     }
 
@@ -296,7 +330,8 @@ RPyContext_zero_lie(PyObject* self, PyObject* args, PyObject* kwargs)
 
 #define ADD_METHOD(NAME, FLAGS)                                                \
     {                                                                          \
-        #NAME, (PyCFunction) & RPyContext_##NAME, (FLAGS), NAME##_DOC          \
+        #NAME, (PyCFunction) &Guarded<&RPyContext_##NAME>::call, (FLAGS),      \
+                NAME##_DOC                                                     \
     }
 
 static PyMethodDef RPyContext_members[] = {
-- 
2.43.0


From bb0583acf93d23a4d32d85e7380f034ece1e073f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:52 +0000
Subject: [PATCH 12/99] fix: ordering comparisons of a Context raise TypeError
 and comparing with other objects is safe

---
 roughpy/src/algebra/context.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/roughpy/src/algebra/context.cpp b/roughpy/src/algebra/context.cpp
index 0189e26..40ddc52 100644
--- a/roughpy/src/algebra/context.cpp
+++ b/roughpy/src/algebra/context.cpp
@@ -408,6 +408,10 @@ RPyContext_new(PyObject* self, PyObject* args, PyObject* kwargs)
 
 static PyObject* RPyContext_richcompare(PyObject* o1, PyObject* o2, int opid)
 {
+    if (!PyObject_TypeCheck(o1, &python::RPyContext_Type)
+        || !PyObject_TypeCheck(o2, &python::RPyContext_Type)) {
+        Py_RETURN_NOTIMPLEMENTED;
+    }
 
     switch (opid) {
         case Py_EQ:
@@ -422,7 +426,7 @@ static PyObject* RPyContext_richcompare(PyObject* o1, PyObject* o2, int opid)
         case Py_GE: break;
     }
 
-    return nullptr;
+    Py_RETURN_NOTIMPLEMENTED;
 }
 
 static const char* CONTEXT_DOC = R"rpydoc(
-- 
2.43.0


From 01966d4cee570f13087a6ba5157f080a6962a6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:26 +0000
Subject: [PATCH 13/99] fix: sparse rows of increments keep their keys when
 streams and signatures are made from them

---
 roughpy/src/args/parse_data_argument.cpp     | 20 +++++++++++++++-----
 roughpy/src/streams/lie_increment_stream.cpp |  2 +-
 scalars/src/key_scalar_stream.cpp            | 16 ++++++----------
 3 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/roughpy/src/args/parse_data_argument.cpp b/roughpy/src/args/parse_data_argument.cpp
index faec40b..2a70a8b 100644
--- a/roughpy/src/args/parse_data_argument.cpp
+++ b/roughpy/src/args/parse_data_argument.cpp
@@ -197,7 +197,10 @@ void ConversionManager::push(const algebra::Lie& lie_data)
 
         m_offset += dense_data->size();
     } else {
-        for (auto item : lie_data) { push(item.key(), item.value()); }
+        const auto basis = lie_data.basis();
+        for (auto item : lie_data) {
+            push(basis.key_to_index(item.key()), item.value());
+        }
     }
 }
 
@@ -276,7 +279,11 @@ void ConversionManager::handle_lie_leaf(LeafItem& leaf)
         }
     } else {
         allocate_leaf(new_leaf);
-        for (auto&& item : leaf_lie) { push(item.key(), item.value()); }
+        // The keys of parsed data are indices, as they are in dicts and pairs
+        const auto basis = leaf_lie.basis();
+        for (auto&& item : leaf_lie) {
+            push(basis.key_to_index(item.key()), item.value());
+        }
     }
 }
 
@@ -466,11 +473,13 @@ void ConversionManager::check_size_and_type_recurse(
     if (py::isinstance<algebra::Lie>(node)) {
         const auto& lie = node.cast<const algebra::Lie&>();
         auto& leaf = add_leaf(node, LeafType::Lie);
-        leaf.shape.push_back(lie.dimension());
+        leaf.size = lie.storage_type() == algebra::VectorType::Dense
+                ? lie.dimension()
+                : lie.size();
+        leaf.shape.push_back(leaf.size);
         leaf.value_type = lie.storage_type() == algebra::VectorType::Dense
                 ? ValueType::Value
                 : ValueType::KeyValue;
-        leaf.size = lie.dimension();
         leaf.scalar_info = lie.coeff_type()->type_info();
     } else if (py::hasattr(node, "__dlpack__")) {
         // DLPack arguments have their inner-most dimension as leaves
@@ -707,7 +716,8 @@ void ParsedData::fill_ks_stream(scalars::KeyScalarStream& ks_stream)
             case LeafType::Dict:
             case LeafType::Lie:
             case LeafType::Sequence:
-                ks_stream.push_back(leaf.data.borrow());
+                // leaf is const here, so this is the const version of keys
+                ks_stream.push_back(leaf.data.borrow(), leaf.data.keys());
                 break;
         }
     }
diff --git a/roughpy/src/streams/lie_increment_stream.cpp b/roughpy/src/streams/lie_increment_stream.cpp
index 09e880d..071c9b6 100644
--- a/roughpy/src/streams/lie_increment_stream.cpp
+++ b/roughpy/src/streams/lie_increment_stream.cpp
@@ -145,7 +145,7 @@ static py::object lie_increment_stream_from_increments(py::object data, py::kwar
                     const auto* begin = row.keys();
                     const auto* end = begin + row.size();
 
-                    auto found = std::find(begin, end, icol + 1);
+                    auto found = std::find(begin, end, icol);
 
                     if (found == end) {
                         RPY_THROW(
diff --git a/scalars/src/key_scalar_stream.cpp b/scalars/src/key_scalar_stream.cpp
index 9f30a3f..0c7d006 100644
--- a/scalars/src/key_scalar_stream.cpp
+++ b/scalars/src/key_scalar_stream.cpp
@@ -52,7 +52,6 @@ KeyScalarStream::KeyScalarStream(KeyScalarStream&& other) noexcept
 KeyScalarStream& KeyScalarStream::operator=(const KeyScalarStream& other)
 {
     if (&other != this) {
-        this->~KeyScalarStream();
         ScalarStream::operator=(static_cast<const ScalarStream&>(other));
         m_key_stream = other.m_key_stream;
     }
@@ -61,7 +60,6 @@ KeyScalarStream& KeyScalarStream::operator=(const KeyScalarStream& other)
 KeyScalarStream& KeyScalarStream::operator=(KeyScalarStream&& other) noexcept
 {
     if (&other != this) {
-        this->~KeyScalarStream();
         ScalarStream::operator=(static_cast<ScalarStream&&>(other));
         m_key_stream = std::move(other.m_key_stream);
     }
@@ -85,10 +83,9 @@ void KeyScalarStream::push_back(
         const key_type* key_ptr
 )
 {
-    if (key_ptr != nullptr) {
-        if (m_key_stream.empty()) {
-            m_key_stream.resize(ScalarStream::row_count(), nullptr);
-        }
+    if (key_ptr != nullptr || !m_key_stream.empty()) {
+        // Every row has an entry as soon as one of the rows has keys
+        m_key_stream.resize(ScalarStream::row_count(), nullptr);
         m_key_stream.push_back(key_ptr);
     }
     ScalarStream::push_back(scalar_data);
@@ -98,10 +95,9 @@ void KeyScalarStream::push_back(
         const key_type* key_ptr
 )
 {
-    if (key_ptr != nullptr) {
-        if (m_key_stream.empty()) {
-            m_key_stream.resize(ScalarStream::row_count(), nullptr);
-        }
+    if (key_ptr != nullptr || !m_key_stream.empty()) {
+        // Every row has an entry as soon as one of the rows has keys
+        m_key_stream.resize(ScalarStream::row_count(), nullptr);
         m_key_stream.push_back(key_ptr);
     }
     ScalarStream::push_back(std::move(scalar_data));
-- 
2.43.0


From cd636b9a42e00028cf13a9c58c4e78e5c3d2bb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:25 +0000
Subject: [PATCH 14/99] fix: increments at the same parameter value are
 combined instead of dropped

---
 streams/src/lie_increment_stream.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/streams/src/lie_increment_stream.cpp b/streams/src/lie_increment_stream.cpp
index 4cabe77..d396ad4 100644
--- a/streams/src/lie_increment_stream.cpp
+++ b/streams/src/lie_increment_stream.cpp
@@ -142,9 +142,13 @@ LieIncrementStream::LieIncrementStream(
                 md.cached_vector_type
         };
 
-        auto [it, inserted]
-                = m_data.try_emplace(index, ctx.construct_lie(cdata));
+        auto increment = ctx.construct_lie(cdata);
+        auto [it, inserted] = m_data.try_emplace(index, increment);
 
+        if (!inserted) {
+            // Increments at the same parameter value are taken in data order
+            it->second = ctx.cbh(it->second, increment, md.cached_vector_type);
+        }
 
         if (inserted && param_needs_adding) {
             /*
-- 
2.43.0


From 31e27ded863c0d5d2f3c3a1aa5770d88c65ac6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:25 +0000
Subject: [PATCH 15/99] fix: the default resolution of a Lie increment stream
 separates its indices

---
 roughpy/src/streams/lie_increment_stream.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/roughpy/src/streams/lie_increment_stream.cpp b/roughpy/src/streams/lie_increment_stream.cpp
index 071c9b6..ed2fcb9 100644
--- a/roughpy/src/streams/lie_increment_stream.cpp
+++ b/roughpy/src/streams/lie_increment_stream.cpp
@@ -44,7 +44,8 @@
 #include "schema_finalization.h"
 #include "stream.h"
 
-#include <limits>
+#include <algorithm>
+#include <cmath>
 #include <pybind11/pytypes.h>
 
 using namespace rpy;
@@ -193,16 +194,20 @@ static py::object lie_increment_stream_from_increments(py::object data, py::kwar
     if (!md.resolution) {
         RPY_DBG_ASSERT(!indices.empty());
 
-        auto min_diff = std::numeric_limits<param_t>::infinity();
-        auto previous = 0.0;
+        // The distance from the origin is used when there is only one index
+        auto min_diff = std::abs(indices.front());
+        std::vector<param_t> sorted(indices.begin(), indices.end());
+        std::sort(sorted.begin(), sorted.end());
 
-        for (const auto& idx : indices) {
-            auto diff = idx - previous;
-            if (diff < min_diff) {
+        bool have_diff = false;
+        for (dimn_t i = 1; i < sorted.size(); ++i) {
+            const auto diff = sorted[i] - sorted[i - 1];
+            if (diff > 0 && (!have_diff || diff < min_diff)) {
                 min_diff = diff;
+                have_diff = true;
             }
-            md.resolution = python::param_to_resolution(min_diff) + 1;
         }
+        md.resolution = python::param_to_resolution(min_diff) + 1;
     }
 
     if (!indices.empty()) {
-- 
2.43.0


From 8a77617665a2e84ab32d48bd55ce1101effff7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:40 +0000
Subject: [PATCH 16/99] fix: comparisons of dyadic rationals compare the
 numbers they represent

---
 intervals/src/dyadic.cpp | 59 +++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/intervals/src/dyadic.cpp b/intervals/src/dyadic.cpp
index fbbd00a..886b2f5 100644
--- a/intervals/src/dyadic.cpp
+++ b/intervals/src/dyadic.cpp
@@ -34,7 +34,9 @@
 
 #include "roughpy/core/types.hpp"
 
+#include <algorithm>
 #include <cmath>
+#include <limits>
 #include <ostream>
 
 using namespace rpy;
@@ -100,45 +102,46 @@ bool Dyadic::rebase(Dyadic::power_t resolution)
     return resolution == m_power;
 }
 
-bool rpy::intervals::operator<(const Dyadic& lhs, const Dyadic& rhs)
+namespace {
+
+/*
+ * Three-way comparison of the rationals k_l/2^n_l and k_r/2^n_r. The multiplier
+ * of the number with the larger power is divided rather than multiplying the
+ * other, so that this cannot overflow.
+ */
+int compare(const Dyadic& lhs, const Dyadic& rhs) noexcept
 {
-    auto lmul = lhs.multiplier();
-    auto lpow = lhs.power();
-    auto rmul = rhs.multiplier();
-    auto rpow = rhs.power();
+    if (lhs.power() > rhs.power()) { return -compare(rhs, lhs); }
+
+    const auto lmul = lhs.multiplier();
+    const auto rmul = rhs.multiplier();
+    const auto diff = std::min(
+            rhs.power() - lhs.power(),
+            std::numeric_limits<Dyadic::multiplier_t>::digits
+    );
+
+    const auto quotient = rmul >> diff;
+    if (lmul != quotient) { return lmul < quotient ? -1 : 1; }
+    return (quotient << diff) == rmul ? 0 : -1;
+}
 
-    return (lpow <= rpow) ? (lmul < Dyadic::shift(rmul, rpow - lpow))
-                          : Dyadic::shift(lmul, lpow - rpow) < rmul;
+}// namespace
+
+bool rpy::intervals::operator<(const Dyadic& lhs, const Dyadic& rhs)
+{
+    return compare(lhs, rhs) < 0;
 }
 bool rpy::intervals::operator<=(const Dyadic& lhs, const Dyadic& rhs)
 {
-    auto lmul = lhs.multiplier();
-    auto lpow = lhs.power();
-    auto rmul = rhs.multiplier();
-    auto rpow = rhs.power();
-
-    return (lpow <= rpow) ? (lmul <= Dyadic::shift(rmul, rpow - lpow))
-                          : Dyadic::shift(lmul, lpow - rpow) <= rmul;
+    return compare(lhs, rhs) <= 0;
 }
 bool rpy::intervals::operator>(const Dyadic& lhs, const Dyadic& rhs)
 {
-    auto lmul = lhs.multiplier();
-    auto lpow = lhs.power();
-    auto rmul = rhs.multiplier();
-    auto rpow = rhs.power();
-
-    return (lpow <= rpow) ? (lmul > Dyadic::shift(rmul, rpow - lpow))
-                          : Dyadic::shift(lmul, lpow - rpow) > rmul;
+    return compare(lhs, rhs) > 0;
 }
 bool rpy::intervals::operator>=(const Dyadic& lhs, const Dyadic& rhs)
 {
-    auto lmul = lhs.multiplier();
-    auto lpow = lhs.power();
-    auto rmul = rhs.multiplier();
-    auto rpow = rhs.power();
-
-    return (lpow <= rpow) ? (lmul >= Dyadic::shift(rmul, rpow - lpow))
-                          : Dyadic::shift(lmul, lpow - rpow) >= rmul;
+    return compare(lhs, rhs) >= 0;
 }
 std::ostream& rpy::intervals::operator<<(std::ostream& os, const Dyadic& arg)
 {
-- 
2.43.0


From b2de8724d9231a3967206f825c2827a33d4bc1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:40 +0000
Subject: [PATCH 17/99] fix: dyadic multipliers are 64 bits wide, so resolution
 32 works

---
 core/include/roughpy/core/types.hpp                   | 2 +-
 intervals/include/roughpy/intervals/dyadic_interval.h | 8 ++++++--
 intervals/src/dyadic.cpp                              | 6 ++++--
 intervals/src/dyadic_searcher.cpp                     | 5 ++++-
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/core/include/roughpy/core/types.hpp b/core/include/roughpy/core/types.hpp
index 15108fb..6413144 100644
--- a/core/include/roughpy/core/types.hpp
+++ b/core/include/roughpy/core/types.hpp
@@ -61,7 +61,7 @@ using param_t = double;
 using scalar_t = double;
 
 using resolution_t = int;
-using dyadic_multiplier_t = int;
+using dyadic_multiplier_t = std::int64_t;
 using dyadic_depth_t = resolution_t;
 
 using accuracy_t = param_t;
diff --git a/intervals/include/roughpy/intervals/dyadic_interval.h b/intervals/include/roughpy/intervals/dyadic_interval.h
index 885141a..2a264ef 100644
--- a/intervals/include/roughpy/intervals/dyadic_interval.h
+++ b/intervals/include/roughpy/intervals/dyadic_interval.h
@@ -35,6 +35,7 @@
 #include <roughpy/platform/serialization.h>
 
 #include <ostream>
+#include <type_traits>
 #include <vector>
 
 #include "roughpy_intervals_export.h"
@@ -67,8 +68,11 @@ public:
     DyadicInterval(Dyadic dyadic, IntervalType itype)
         : Dyadic(dyadic), Interval(itype)
     {}
-    DyadicInterval(multiplier_t k, power_t n, IntervalType itype)
-        : Dyadic(k, n), Interval(itype)
+    template <
+            typename I,
+            typename = std::enable_if_t<std::is_integral<I>::value>>
+    DyadicInterval(I k, power_t n, IntervalType itype = IntervalType::Clopen)
+        : Dyadic(static_cast<multiplier_t>(k), n), Interval(itype)
     {
         RPY_DBG_ASSERT(itype == IntervalType::Clopen
                        || itype == IntervalType::Opencl);
diff --git a/intervals/src/dyadic.cpp b/intervals/src/dyadic.cpp
index 886b2f5..9ba5d59 100644
--- a/intervals/src/dyadic.cpp
+++ b/intervals/src/dyadic.cpp
@@ -84,11 +84,13 @@ bool Dyadic::rebase(Dyadic::power_t resolution)
         return true;
     }
 
+    power_t bounded_resolution = resolution;
     if (m_power >= std::numeric_limits<multiplier_t>::digits + resolution) {
-        resolution = (m_power - std::numeric_limits<power_t>::digits) + 1;
+        bounded_resolution
+                = (m_power - std::numeric_limits<multiplier_t>::digits) + 1;
     }
 
-    power_t rel_resolution{m_power - resolution};
+    power_t rel_resolution{m_power - bounded_resolution};
 
     // starting at relative resolution find the first n in decreasing order so
     // that 2^n divides k 2^0 always divides k so the action stops
diff --git a/intervals/src/dyadic_searcher.cpp b/intervals/src/dyadic_searcher.cpp
index e37f8b2..6eedd29 100644
--- a/intervals/src/dyadic_searcher.cpp
+++ b/intervals/src/dyadic_searcher.cpp
@@ -217,7 +217,10 @@ DyadicSearcher::find_in_unit_interval(ScaledPredicate& predicate)
     for (dyadic_depth_t current_depth = 1; current_depth <= m_max_depth;
          ++current_depth) {
         // Starting interval for this depth is [(2^d-1)/2^d, 2^d/2^d)
-        DyadicInterval check_current{(1 << current_depth), current_depth};
+        DyadicInterval check_current{
+                Dyadic::multiplier_t(1) << current_depth,
+                current_depth
+        };
         get_next_dyadic(check_current);
 
         // We're iterating from right to left, so the end point is 0.
-- 
2.43.0


From 89c1ab9a5a095990d312565635b340840a479b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:40 +0000
Subject: [PATCH 18/99] fix: merging disjoint partitions keeps their
 intermediate points

---
 intervals/src/partition.cpp | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/intervals/src/partition.cpp b/intervals/src/partition.cpp
index 0537640..a6026ac 100644
--- a/intervals/src/partition.cpp
+++ b/intervals/src/partition.cpp
@@ -144,22 +144,28 @@ Partition Partition::merge(const Partition& other) const
     Partition result(
             RealInterval(std::min(linf, rinf), std::max(lsup, rsup), type()));
 
-    if (lsup < rinf) {
-        result.m_intermediate_points.reserve(2);
-        if RPY_LIKELY (lsup != linf) {
-            result.m_intermediate_points.push_back(lsup);
+    if (lsup < rinf || rsup < linf) {
+        // Disjoint, so the gap between the two is a piece of its own
+        const auto& left = (lsup < rinf) ? *this : other;
+        const auto& right = (lsup < rinf) ? other : *this;
+        auto& points = result.m_intermediate_points;
+        points.reserve(size() + other.size());
+        points.insert(
+                points.end(),
+                left.m_intermediate_points.begin(),
+                left.m_intermediate_points.end()
+        );
+        if RPY_LIKELY (left.inf() != left.sup()) {
+            points.push_back(left.sup());
         }
-        if RPY_LIKELY (rinf != rsup) {
-            result.m_intermediate_points.push_back(rinf);
-        }
-    } else if (rsup < linf) {
-        result.m_intermediate_points.reserve(2);
-        if RPY_LIKELY (rinf != rsup) {
-            result.m_intermediate_points.push_back(rsup);
-        }
-        if RPY_LIKELY (lsup != linf) {
-            result.m_intermediate_points.push_back(linf);
+        if RPY_LIKELY (right.inf() != right.sup()) {
+            points.push_back(right.inf());
         }
+        points.insert(
+                points.end(),
+                right.m_intermediate_points.begin(),
+                right.m_intermediate_points.end()
+        );
     } else {
 
         // At worst, the result has size size() + other.size();
-- 
2.43.0


From 061676d618944fe9bd9262044716c9c9ef2c04dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:35 +0000
Subject: [PATCH 19/99] fix: indexing a Partition out of range raises
 IndexError, so iteration over it ends

---
 intervals/src/partition.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/intervals/src/partition.cpp b/intervals/src/partition.cpp
index a6026ac..ac4da2e 100644
--- a/intervals/src/partition.cpp
+++ b/intervals/src/partition.cpp
@@ -37,6 +37,7 @@
 #include <algorithm>
 #include <cmath>
 #include <limits>
+#include <stdexcept>
 
 using namespace rpy;
 using namespace rpy::intervals;
@@ -93,7 +94,11 @@ param_t Partition::mesh() const noexcept
 RealInterval Partition::operator[](dimn_t i) const
 {
     const auto num_midpoints = m_intermediate_points.size();
-    RPY_CHECK(i <= num_midpoints);
+    RPY_CHECK(
+            i <= num_midpoints,
+            "partition index out of range",
+            std::out_of_range
+    );
 
     if (num_midpoints == 0) {
         // Special case, there are no intermediate points, so the 0th interval
-- 
2.43.0


From fb09937f6f6bbcbcd5220071d2e31461f37c0a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:05 +0000
Subject: [PATCH 20/99] fix: tensor keys split, index, multiply and hash
 consistently with their words

split_n used the width of the first letters for the last and ignored the
length of the word; an index of a key of width one divided by zero; letter 0
was taken for the end of another word; a product longer than the depth gave a
key outside the basis; equal keys of different bases had different hashes.
---
 roughpy/src/algebra/tensor_key.cpp | 40 +++++++++++++++---------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/roughpy/src/algebra/tensor_key.cpp b/roughpy/src/algebra/tensor_key.cpp
index 26e5af2..7b7ce00 100644
--- a/roughpy/src/algebra/tensor_key.cpp
+++ b/roughpy/src/algebra/tensor_key.cpp
@@ -82,24 +82,17 @@ python::PyTensorKey python::PyTensorKey::rparent() const
 pair<python::PyTensorKey, python::PyTensorKey>
 python::PyTensorKey::split_n(deg_t n) const
 {
-    if (m_key == 0) {
-        return std::make_pair(PyTensorKey(m_basis, 0), PyTensorKey(m_basis, 0));
-    }
     if (n <= 0) {
         return std::make_pair(*this,PyTensorKey(m_basis, 0));
     }
-    if (n >= m_basis.depth()) {
-        return std::make_pair(PyTensorKey(m_basis, 0), *this);
-    }
 
-    auto width = m_basis.width();
-    //TODO: needs better implementation
-    key_type shift = 1;
-    for (deg_t i=0; i<n; ++i) {
-        shift *= width;
-    }
-    auto left = (m_key - 1) / shift;
-    auto right = 1 + ((m_key - 1) % shift);
+    // The right hand part has the last n letters of the word, or all of them
+    const auto letters = to_letters();
+    const auto degree = letters.size();
+    const auto left_size = degree - std::min(degree, static_cast<dimn_t>(n));
+
+    std::vector<let_t> left(letters.begin(), letters.begin() + left_size);
+    std::vector<let_t> right(letters.begin() + left_size, letters.end());
 
     return std::make_pair(PyTensorKey(m_basis, left), PyTensorKey(m_basis, right));
 
@@ -152,14 +145,12 @@ construct_key(const py::args& args, const py::kwargs& kwargs)
         auto depth = kwargs["depth"].cast<deg_t>();
         auto index = kwargs["index"].cast<key_type>();
 
-        auto max_idx = (python::maths::power(dimn_t(width), depth + 1) - 1)
-                / (dimn_t(width) - 1);
-        if (index >= max_idx) {
+        auto ctx = algebra::get_context(width, depth,
+                                        *scalars::ScalarType::of<float>());
+        if (index >= ctx->get_tensor_basis().dimension()) {
             RPY_THROW(py::value_error, "provided index exceeds maximum");
         }
 
-        auto ctx = algebra::get_context(width, depth,
-                                        *scalars::ScalarType::of<float>());
         return python::PyTensorKey(ctx->get_tensor_basis(), index);
     }
 
@@ -187,6 +178,10 @@ construct_key(const py::args& args, const py::kwargs& kwargs)
         RPY_THROW(py::value_error, "number of letters exceeds specified depth");
     }
 
+    if (std::find(letters.begin(), letters.end(), 0) != letters.end()) {
+        RPY_THROW(py::value_error, "letters are numbered from 1");
+    }
+
     if (!letters.empty() && *max_elt > width) {
         RPY_THROW(py::value_error, "letter value exceeds alphabet size");
     }
@@ -219,11 +214,16 @@ python::PyTensorKey python::operator*(
     auto it = letters.insert(letters.end(), left_letters.begin(), left_letters.end());
     letters.insert(it, right_letters.begin(), right_letters.end());
 
+    if (letters.size() > static_cast<dimn_t>(basis.depth())) {
+        RPY_THROW(py::value_error, "number of letters exceeds the depth of the basis");
+    }
+
     return {basis, letters};
 }
 
 hash_t python::hash_value(const python::PyTensorKey& key) noexcept {
-    auto seed = hash_value(key.m_basis);
+    // Keys are equal when their widths and indices are
+    hash_t seed = static_cast<hash_t>(key.m_basis.width());
     hash_combine(seed, key.m_key);
     return seed;
 }
-- 
2.43.0


From 4adff63c315ee7686659e500a469fced477cb101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:05 +0000
Subject: [PATCH 21/99] fix: key_to_index, parents and index_to_key of a basis
 use their argument

key_to_index and parents looked at key 0 whatever key they were given, and
index_to_key read past the Hall set for indices out of range.
---
 roughpy/src/algebra/basis.cpp | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/roughpy/src/algebra/basis.cpp b/roughpy/src/algebra/basis.cpp
index dc3e301..f788475 100644
--- a/roughpy/src/algebra/basis.cpp
+++ b/roughpy/src/algebra/basis.cpp
@@ -41,6 +41,19 @@ using namespace rpy;
 using namespace rpy::algebra;
 using namespace pybind11::literals;
 
+template <typename T, typename K>
+static key_type internal_key(const T& basis, const K& key)
+{
+    // The keys of a Lie basis are numbered from 1, those of a tensor basis from
+    // 0. A bracket that is not in the Hall set has no key at all.
+    const auto result = static_cast<key_type>(key);
+    const key_type first = is_same_v<T, LieBasis> ? 1 : 0;
+    if (result < first || result - first >= basis.dimension()) {
+        throw py::value_error("the key does not belong to this basis");
+    }
+    return result;
+}
+
 template <typename T, typename K, typename KIter>
 static py::class_<T> wordlike_basis_setup(py::module_& m, const char* name)
 {
@@ -64,6 +77,9 @@ static py::class_<T> wordlike_basis_setup(py::module_& m, const char* name)
     basis.def(
             "index_to_key",
             [](const T& self, dimn_t index) {
+                if (index >= self.dimension()) {
+                    throw py::index_error("index exceeds the dimension");
+                }
                 return K(self, self.index_to_key(index));
             },
             "index"_a,
@@ -71,8 +87,8 @@ static py::class_<T> wordlike_basis_setup(py::module_& m, const char* name)
     );
     basis.def(
             "key_to_index",
-            [](const T& self, const python::PyLieKey& key) {
-                return self.key_to_index(0);
+            [](const T& self, const K& key) {
+                return self.key_to_index(internal_key(self, key));
             },
             "key"_a,
             "Takes a :py:attr:`key` and returns an integer corresponding to the index."
@@ -80,7 +96,19 @@ static py::class_<T> wordlike_basis_setup(py::module_& m, const char* name)
 
     basis.def(
             "parents",
-            [](const T& self, const K& key) { return self.parents(0); },
+            [](const T& self, const K& key) {
+                const auto internal = internal_key(self, key);
+                pair<optional<K>, optional<K>> result;
+                if (is_same_v<T, LieBasis> && self.letter(internal)) {
+                    // Letters of the Hall set are not brackets
+                    result.second = key;
+                    return result;
+                }
+                const auto parents = self.parents(internal);
+                if (parents.first) { result.first = K(self, *parents.first); }
+                if (parents.second) { result.second = K(self, *parents.second); }
+                return result;
+            },
             "key"_a,
             "Splits off the first letter and returns the letter and the remainder of the word."
     );
-- 
2.43.0


From 77066dc8898f59e740d19f5e1ec2d6def2ca3859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:05 +0000
Subject: [PATCH 22/99] fix: letters of a LieKey are checked against the width
 of its basis

---
 roughpy/src/algebra/lie_key.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/roughpy/src/algebra/lie_key.cpp b/roughpy/src/algebra/lie_key.cpp
index e2587fa..8a022ec 100644
--- a/roughpy/src/algebra/lie_key.cpp
+++ b/roughpy/src/algebra/lie_key.cpp
@@ -330,8 +330,10 @@ public:
         if (py::isinstance<py::list>(obj)) { return parse_list(obj); }
         if (py::isinstance<py::int_>(obj)) {
             auto as_let = obj.cast<let_t>();
-            if (basis)
-                if (as_let > max_letter) { max_letter = as_let; }
+            if (as_let < 1 || as_let > static_cast<let_t>(width)) {
+                RPY_THROW(py::value_error, "letter exceeds width");
+            }
+            if (as_let > max_letter) { max_letter = as_let; }
             return container_type{python::PyLieLetter::from_letter(as_let)};
         }
         RPY_THROW(py::type_error, "items must be either int or lists");
@@ -435,7 +437,7 @@ make_lie_key(const py::args& args, const py::kwargs& kwargs)
 
     if (py::isinstance<py::int_>(args[0])) {
         auto letter = args[0].cast<let_t>();
-        if (letter > width) {
+        if (letter < 1 || letter > static_cast<let_t>(width)) {
             RPY_THROW(py::value_error, "letter exceeds width");
         }
         return python::PyLieKey(std::move(basis), letter);
@@ -467,6 +469,9 @@ python::parse_lie_key(const algebra::LieBasis& basis, const py::args& args, cons
 
     if (py::isinstance<py::int_>(args[0])) {
         auto letter = args[0].cast<let_t>();
+        if (letter < 1 || letter > static_cast<let_t>(basis.width())) {
+            RPY_THROW(py::value_error, "letter exceeds width");
+        }
         return PyLieKey(basis, letter);
     }
 
-- 
2.43.0


From aab5c2da14ee52fdfc6d1b052e73658c50eb650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:19 +0000
Subject: [PATCH 23/99] fix: items of an algebra iterator keep their own
 position and keep the element alive

list(tensor) gave items that had all moved on to the end of the element with
the iterator, and reading one crashed, as it did once the element was gone.
---
 algebra/include/roughpy/algebra/algebra_iterator.h | 3 ++-
 roughpy/src/algebra/setup_algebra_type.h           | 8 +++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/algebra/include/roughpy/algebra/algebra_iterator.h b/algebra/include/roughpy/algebra/algebra_iterator.h
index 140a8b7..4cba838 100644
--- a/algebra/include/roughpy/algebra/algebra_iterator.h
+++ b/algebra/include/roughpy/algebra/algebra_iterator.h
@@ -193,7 +193,8 @@ AlgebraIterator<Algebra>::operator*() const
         RPY_THROW(std::runtime_error,"attempting to dereference an invalid iterator"
         );
     }
-    return {p_interface};
+    // The item must not move on with the iterator
+    return {p_interface->clone()};
 }
 template <typename Algebra>
 typename AlgebraIterator<Algebra>::pointer
diff --git a/roughpy/src/algebra/setup_algebra_type.h b/roughpy/src/algebra/setup_algebra_type.h
index afa7ad1..6b93326 100644
--- a/roughpy/src/algebra/setup_algebra_type.h
+++ b/roughpy/src/algebra/setup_algebra_type.h
@@ -101,7 +101,13 @@ void setup_algebra_type(py::class_<Alg, Args...>& klass)
     klass.def(
             "__iter__",
             [](const Alg& self) {
-                return py::make_iterator(self.begin(), self.end());
+                // Items refer to the algebra: they keep the iterator alive,
+                // which in turn keeps the algebra alive
+                return py::make_iterator(
+                        self.begin(),
+                        self.end(),
+                        py::keep_alive<0, 1>()
+                );
             },
             py::keep_alive<0, 1>()
     );
-- 
2.43.0


From 6af3355fb6915678099a455ae1d8552cdadf1f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:59 +0000
Subject: [PATCH 24/99] fix: subtracting a sparse element from itself, zero
 entries in sparse results

The item of the right hand side was used after it had been erased when both sides are the same object.
---
 vendored/libalgebra_lite/sparse_vector.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/vendored/libalgebra_lite/sparse_vector.h b/vendored/libalgebra_lite/sparse_vector.h
index 76c5b44..42b76cc 100644
--- a/vendored/libalgebra_lite/sparse_vector.h
+++ b/vendored/libalgebra_lite/sparse_vector.h
@@ -462,20 +462,22 @@ public:
 
         const auto& zero = coefficient_ring::zero();
 
-        for (; rit != rend; ++rit) {
-            auto it = m_data.find(rit->first);
+        while (rit != rend) {
+            // Move on first, rhs might be *this and the item erased below
+            const auto item = rit++;
+            auto it = m_data.find(item->first);
             if (it != lend) {
-                op(it->second, rit->second);
+                op(it->second, item->second);
                 if (it->second == zero) {
                     m_data.erase(it);
                 } else {
                     update_degree_for_key(it->first);
                 }
             } else {
-                assert(rit->second != zero);
+                assert(item->second != zero);
                 scalar_type new_val = zero;
-                op(new_val, rit->second);
-                insert_new_value(rit->first, new_val);
+                op(new_val, item->second);
+                if (new_val != zero) { insert_new_value(item->first, new_val); }
             }
         }
 
-- 
2.43.0


From 564cb4ed789f3810974a57c8ef073a18077abded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:59 +0000
Subject: [PATCH 25/99] fix: clearing a dense vector resets its degree;
 antipode of an empty dense tensor

---
 vendored/libalgebra_lite/dense_vector.h | 6 +++++-
 vendored/libalgebra_lite/free_tensor.h  | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/vendored/libalgebra_lite/dense_vector.h b/vendored/libalgebra_lite/dense_vector.h
index e3e1a84..5da4b76 100644
--- a/vendored/libalgebra_lite/dense_vector.h
+++ b/vendored/libalgebra_lite/dense_vector.h
@@ -206,7 +206,11 @@ public:
     pointer as_mut_ptr() noexcept { return m_storage.data(); }
     const_pointer as_ptr() const noexcept { return m_storage.data(); }
 
-    void clear() noexcept(noexcept(m_storage.clear())) { m_storage.clear(); }
+    void clear() noexcept(noexcept(m_storage.clear()))
+    {
+        m_storage.clear();
+        m_degree = 0;
+    }
 
     // these need to be implemented in terms of kernels.
 
diff --git a/vendored/libalgebra_lite/free_tensor.h b/vendored/libalgebra_lite/free_tensor.h
index bf9f0ff..37f89ac 100644
--- a/vendored/libalgebra_lite/free_tensor.h
+++ b/vendored/libalgebra_lite/free_tensor.h
@@ -728,6 +728,9 @@ void antipode_helper<Coefficients>::handle_antipode(
         const dense_vector_base<tensor_basis, Coefficients, Storage>& arg
 ) const
 {
+    // Without any data there is not even a degree 0 to copy
+    if (arg.empty()) { return; }
+
     result.resize_exact(arg.dimension());
     auto* optr = result.as_mut_ptr();
     const auto* iptr = arg.as_ptr();
-- 
2.43.0


From 138c18c61568bc9367dcbe4579178ec5be4a9036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:59 +0000
Subject: [PATCH 26/99] fix: adjoint_to_free_multiply wraps its result in the
 type it has

The result belongs to the algebra of the argument; it was wrapped as an element of the multiplier's, and in-place operations on it crashed.
---
 roughpy/src/algebra/free_multiply_funcs.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/roughpy/src/algebra/free_multiply_funcs.cpp b/roughpy/src/algebra/free_multiply_funcs.cpp
index f43ae4c..a3bbb00 100644
--- a/roughpy/src/algebra/free_multiply_funcs.cpp
+++ b/roughpy/src/algebra/free_multiply_funcs.cpp
@@ -182,11 +182,9 @@ py::object
 adjoint_to_free_multiply(const py::object& multiplier, const py::object& arg)
 {
     algebra::ConstRawUnspecifiedAlgebraType mul_raw, arg_raw;
-    algebra::AlgebraType result_alg_type;
     algebra::context_pointer ctx;
     if (py::isinstance<algebra::FreeTensor>(multiplier)) {
         const auto& left_real = multiplier.cast<const algebra::FreeTensor&>();
-        result_alg_type = algebra::AlgebraType::FreeTensor;
         ctx = left_real.context();
         mul_raw = (&*left_real);
         if (py::isinstance<algebra::FreeTensor>(arg)) {
@@ -198,7 +196,6 @@ adjoint_to_free_multiply(const py::object& multiplier, const py::object& arg)
                                      "FreeTensor or ShuffleTensor");
         }
     } else if (py::isinstance<algebra::ShuffleTensor>(multiplier)) {
-        result_alg_type = algebra::AlgebraType::ShuffleTensor;
         const auto& left_real = multiplier.cast<const
                 algebra::ShuffleTensor&>();
         ctx = left_real.context();
@@ -220,7 +217,8 @@ adjoint_to_free_multiply(const py::object& multiplier, const py::object& arg)
 
     auto result_ptr = ctx->adjoint_to_left_multiply_by(mul_raw, arg_raw);
 
-    switch (result_alg_type) {
+    // The result is an element of the algebra of the argument
+    switch (result_ptr->alg_type()) {
         case algebra::AlgebraType::FreeTensor:
             return py::cast(algebra::FreeTensor(std::move(result_ptr)));
         case algebra::AlgebraType::ShuffleTensor:
-- 
2.43.0


From f398f52729430b01f47cbbdc748332accd76e5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:04 +0000
Subject: [PATCH 27/99] fix: log signatures at another depth or scalar type do
 not mix with the cached ones

---
 streams/src/dyadic_caching_layer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/streams/src/dyadic_caching_layer.cpp b/streams/src/dyadic_caching_layer.cpp
index a35b02b..c87ff44 100644
--- a/streams/src/dyadic_caching_layer.cpp
+++ b/streams/src/dyadic_caching_layer.cpp
@@ -95,6 +95,12 @@ DyadicCachingLayer::log_signature(const intervals::DyadicInterval& interval,
     const auto stream_resolution = metadata().default_resolution;
 
     if (interval.power() == stream_resolution) {
+        // The cache holds elements of the context of the stream, which are
+        // truncated at its depth and in its scalar type.
+        if (&ctx != metadata().default_context.get()) {
+            return log_signature_impl(interval, ctx);
+        }
+
         std::lock_guard<std::recursive_mutex> access(m_compute_lock);
 
         auto& cached = m_cache[interval];
-- 
2.43.0


From 6ae12e660f487ed2f008b799b8d1fd0d3c348c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:04 +0000
Subject: [PATCH 28/99] fix: dtype, depth and ctx arguments of signature
 queries are read and checked

---
 roughpy/src/streams/signature_arguments.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/roughpy/src/streams/signature_arguments.cpp b/roughpy/src/streams/signature_arguments.cpp
index 1e34f1b..af0b838 100644
--- a/roughpy/src/streams/signature_arguments.cpp
+++ b/roughpy/src/streams/signature_arguments.cpp
@@ -35,6 +35,7 @@ static int resolution_converter(PyObject* object, void* out)
                 = python::param_to_resolution(PyFloat_AsDouble(object));
     } else if (Py_TYPE(object) == &PyLong_Type) {
         *reinterpret_cast<optional<resolution_t>*>(out) = PyLong_AsLong(object);
+        if (PyErr_Occurred() != nullptr) { return 0; }
 #if PY_VERSION_HEX >= 0x030A0000
     } else if (Py_IsNone(object)) {
 #else
@@ -106,6 +107,7 @@ int python::parse_sig_args(
             }
             sigargs->resolution
                     = static_cast<resolution_t>(PyLong_AsLong(interval_or_inf));
+            if (PyErr_Occurred() != nullptr) { return -1; }
 
             sigargs->interval = {};
         } else {
@@ -197,7 +199,7 @@ int python::parse_sig_args(
             } else if (Py_TYPE(dtype) == &PyUnicode_Type) {
                 const auto* dtype_str = PyUnicode_AsUTF8(dtype);
                 const auto ctype_o = scalars::get_type(dtype_str);
-                if (ctype_o) {
+                if (!ctype_o) {
                     PyErr_SetString(
                             PyExc_TypeError,
                             "unrecognised scalar type id"
@@ -207,7 +209,7 @@ int python::parse_sig_args(
                 ctype = *ctype_o;
             }
 #ifdef ROUGHPY_WITH_NUMPY
-            else if (Py_TYPE(dtype) == &PyArrayDescr_Type) {
+            else if (py::isinstance<py::dtype>(dtype)) {
                 ctype = python::npy_dtype_to_ctype(
                         py::reinterpret_borrow<py::dtype>(dtype)
                 );
@@ -229,12 +231,21 @@ int python::parse_sig_args(
             }
         }
 
+        if (depth == 0) { depth = smeta->default_context->depth(); }
         sigargs->ctx = smeta->default_context->get_alike(depth, ctype);
     } else {
         // a provided context always takes priority over other configurations.
         // This cast is infallible because we've already checked that the type
         // is correct.
         sigargs->ctx = python::ctx_cast(ctx);
+
+        if (sigargs->ctx->width() != smeta->default_context->width()) {
+            PyErr_SetString(
+                    PyExc_ValueError,
+                    "context width must match stream width"
+            );
+            return -1;
+        }
     }
 
     return 0;
-- 
2.43.0


From a7ee04fc049a11d645c32e44336afd2e9262d1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:04 +0000
Subject: [PATCH 29/99] fix: Stream methods raise Python exceptions instead of
 terminating the process

---
 roughpy/src/streams/stream.cpp | 41 ++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/roughpy/src/streams/stream.cpp b/roughpy/src/streams/stream.cpp
index 370bdaf..e6845c9 100644
--- a/roughpy/src/streams/stream.cpp
+++ b/roughpy/src/streams/stream.cpp
@@ -177,6 +177,33 @@ Or
 
 
 
+namespace {
+
+// Exceptions must not leave the functions that are called by the interpreter.
+template <auto Function>
+struct Guarded;
+
+template <typename... Args, PyObject* (*Function)(Args...)>
+struct Guarded<Function> {
+    static PyObject* call(Args... args) noexcept
+    {
+        try {
+            return Function(args...);
+        } catch (py::error_already_set& exc) {
+            exc.restore();
+        } catch (py::builtin_exception& exc) {
+            exc.set_error();
+        } catch (std::invalid_argument& exc) {
+            PyErr_SetString(PyExc_ValueError, exc.what());
+        } catch (std::exception& exc) {
+            PyErr_SetString(PyExc_RuntimeError, exc.what());
+        }
+        return nullptr;
+    }
+};
+
+}// namespace
+
 extern "C" {
 
 static const char* SIGNATURE_DOC
@@ -520,27 +547,27 @@ stream___getnewargs_ex__(PyObject* self, PyObject* RPY_UNUSED_VAR)
 
 static PyMethodDef RPyStream_members[] = {
         {           "signature",
-         (PyCFunction) &signature,
+         (PyCFunction) &Guarded<&signature>::call,
          METH_VARARGS | METH_KEYWORDS,
          SIGNATURE_DOC                                      },
         {       "log_signature",
-         (PyCFunction) &log_signature,
+         (PyCFunction) &Guarded<&log_signature>::call,
          METH_VARARGS | METH_KEYWORDS,
          LOGSIGNATURE_DOC                                   },
         {"signature_derivative",
-         (PyCFunction) &sig_deriv,
+         (PyCFunction) &Guarded<&sig_deriv>::call,
          METH_VARARGS | METH_KEYWORDS,
          SIG_DERIV_DOC                                      },
         {            "simplify",
-         (PyCFunction) &simplify_stream,
+         (PyCFunction) &Guarded<&simplify_stream>::call,
          METH_VARARGS | METH_KEYWORDS,
          SIMPLIFY_STREAM_DOC                                },
         {            "restrict",
-         (PyCFunction)& restrict,
+         (PyCFunction) &Guarded<&restrict>::call,
          METH_VARARGS | METH_KEYWORDS,
          RESTRICT_DOC                                       },
         {   "__getnewargs_ex__",
-         (PyCFunction) stream___getnewargs_ex__,
+         (PyCFunction) &Guarded<&stream___getnewargs_ex__>::call,
          METH_NOARGS, nullptr                               },
         {               nullptr,        nullptr,  0, nullptr}
 };
@@ -694,7 +721,7 @@ PyTypeObject rpy::python::RPyStream_Type = {
         0,                                        /* tp_dictoffset */
         (initproc) nullptr,                       /* tp_init */
         nullptr,                                  /* tp_alloc */
-        (newfunc) RPyStream_new,                  /* tp_new */
+        (newfunc) &Guarded<&RPyStream_new>::call, /* tp_new */
         nullptr,                                  /* tp_free */
         nullptr,                                  /* tp_is_gc */
         nullptr,                                  /* tp_bases */
-- 
2.43.0


From e37a1847ecc8ba01ca755c28f4823770fce58211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:04 +0000
Subject: [PATCH 30/99] fix: a context of non-positive width or depth is
 refused

---
 algebra/src/lite_context.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algebra/src/lite_context.cpp b/algebra/src/lite_context.cpp
index caf7b94..bd64c61 100644
--- a/algebra/src/lite_context.cpp
+++ b/algebra/src/lite_context.cpp
@@ -71,6 +71,8 @@ bool LiteContextMaker::can_get(
 ) const
 {
 
+    if (width < 1 || depth < 1) { return false; }
+
     if (!index_of_ctype(ctype).has_value()) { return false; }
 
     {
-- 
2.43.0


From 89fcc6b5ee2611482ada2e3fed6b3400f2fe3ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:57 +0000
Subject: [PATCH 31/99] fix: increments between the points of the grid of a
 stream are found by finer queries

---
 streams/src/dyadic_caching_layer.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/streams/src/dyadic_caching_layer.cpp b/streams/src/dyadic_caching_layer.cpp
index c87ff44..d08d15d 100644
--- a/streams/src/dyadic_caching_layer.cpp
+++ b/streams/src/dyadic_caching_layer.cpp
@@ -88,12 +88,24 @@ DyadicCachingLayer::log_signature(const intervals::DyadicInterval& interval,
                                   resolution_t resolution,
                                   const algebra::Context& ctx) const
 {
+    const auto stream_resolution = metadata().default_resolution;
+
+    // The data inside an interval at the resolution of the stream sits at its
+    // beginning, so this has to come before looking for data in the interval.
+    if (interval.power() > stream_resolution) {
+        intervals::DyadicInterval tmp(interval);
+        tmp.expand_interval(interval.power() - stream_resolution);
+        RPY_DBG_ASSERT(tmp.power() == stream_resolution);
+        if (rational_equals(tmp, interval)) {
+            return log_signature(tmp, stream_resolution, ctx);
+        }
+        return algebra::Lie();
+    }
+
     if (empty(interval)) {
         return ctx.zero_lie(DyadicCachingLayer::metadata().cached_vector_type);
     }
 
-    const auto stream_resolution = metadata().default_resolution;
-
     if (interval.power() == stream_resolution) {
         // The cache holds elements of the context of the stream, which are
         // truncated at its depth and in its scalar type.
@@ -110,16 +122,6 @@ DyadicCachingLayer::log_signature(const intervals::DyadicInterval& interval,
         return cached.borrow_mut();
     }
 
-    if (interval.power() > stream_resolution) {
-        intervals::DyadicInterval tmp(interval);
-        tmp.expand_interval(interval.power() - stream_resolution);
-        RPY_DBG_ASSERT(tmp.power() == stream_resolution);
-        if (rational_equals(tmp, interval)) {
-            return log_signature(tmp, stream_resolution, ctx);
-        }
-        return algebra::Lie();
-    }
-
     intervals::DyadicInterval lhs_itvl(interval);
     intervals::DyadicInterval rhs_itvl(interval);
     lhs_itvl.shrink_interval_left();
-- 
2.43.0


From 4185116ad92f33f541d4e478e020f2a3804b6938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:55 +0000
Subject: [PATCH 32/99] fix: the default support of a Lie increment stream
 covers its first increment; resolution without indices is used

---
 roughpy/src/streams/lie_increment_stream.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/roughpy/src/streams/lie_increment_stream.cpp b/roughpy/src/streams/lie_increment_stream.cpp
index ed2fcb9..81572f2 100644
--- a/roughpy/src/streams/lie_increment_stream.cpp
+++ b/roughpy/src/streams/lie_increment_stream.cpp
@@ -179,7 +179,7 @@ static py::object lie_increment_stream_from_increments(py::object data, py::kwar
         for (dimn_t i = 0; i < num_increments; ++i) {
             indices.emplace_back(static_cast<param_t>(i));
         }
-        md.resolution = 0;
+        if (!md.resolution) { md.resolution = 0; }
     } else if (indices.size() != num_increments) {
         RPY_THROW(
                 py::value_error,
@@ -212,8 +212,11 @@ static py::object lie_increment_stream_from_increments(py::object data, py::kwar
 
     if (!indices.empty()) {
         auto minmax = std::minmax_element(indices.begin(), indices.end());
+        // Increments sit at the beginning of their interval at the resolution
+        // of the stream.
         effective_support = intervals::RealInterval(
-                *minmax.first,
+                ldexp(std::floor(ldexp(*minmax.first, *md.resolution)),
+                      -*md.resolution),
                 *minmax.second + ldexp(1.0, -*md.resolution),
                 md.interval_type
         );
-- 
2.43.0


From ab1aa02d611ef95b37e5f3a2727e1e0bf6ab929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:48 +0000
Subject: [PATCH 33/99] fix: time increments follow the order of the parameter
 values

---
 streams/src/lie_increment_stream.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/streams/src/lie_increment_stream.cpp b/streams/src/lie_increment_stream.cpp
index d396ad4..dcb79af 100644
--- a/streams/src/lie_increment_stream.cpp
+++ b/streams/src/lie_increment_stream.cpp
@@ -38,6 +38,8 @@
 #include <boost/uuid/string_generator.hpp>
 #include <boost/uuid/uuid_io.hpp>
 
+#include <algorithm>
+#include <numeric>
 #include <vector>
 
 using namespace rpy;
@@ -134,7 +136,18 @@ LieIncrementStream::LieIncrementStream(
     m_data.reserve(indices.size());
     param_t previous_param = 0.0;
 
-    for (dimn_t i=0; i<indices.size(); ++i) {
+    // The increments of the parameter are those between neighbouring values
+    std::vector<dimn_t> order(indices.size());
+    std::iota(order.begin(), order.end(), dimn_t(0));
+    std::stable_sort(
+            order.begin(),
+            order.end(),
+            [&indices](dimn_t lhs, dimn_t rhs) {
+                return indices[lhs] < indices[rhs];
+            }
+    );
+
+    for (dimn_t i : order) {
         const auto& index = indices[i];
 
         algebra::VectorConstructionData cdata {
-- 
2.43.0


From d583c7084f86300037c277e1d064e475e4a39b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:20 +0000
Subject: [PATCH 34/99] fix: integer timestamps are converted to datetimes

---
 roughpy/src/args/convert_timestamp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/roughpy/src/args/convert_timestamp.cpp b/roughpy/src/args/convert_timestamp.cpp
index 6087156..21513bc 100644
--- a/roughpy/src/args/convert_timestamp.cpp
+++ b/roughpy/src/args/convert_timestamp.cpp
@@ -86,7 +86,8 @@ py::object generic_to_timestamp(py::handle generic_timestamp)
 
     // Integers should be considered as seconds since POSIX epoch
     if (PyLong_Check(generic_timestamp.ptr())) {
-        auto* pdt = PyDateTime_FromTimestamp(generic_timestamp.ptr());
+        const auto args = py::make_tuple(generic_timestamp);
+        auto* pdt = PyDateTime_FromTimestamp(args.ptr());
         if (pdt == nullptr) { throw py::error_already_set(); }
         return py::reinterpret_steal<py::object>(pdt);
     }
-- 
2.43.0


From fa3caf5b0a19dd6eee6aacde675de1e21d9bd039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:20 +0000
Subject: [PATCH 35/99] fix: schema items without options are accepted

---
 roughpy/src/args/parse_schema.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/roughpy/src/args/parse_schema.cpp b/roughpy/src/args/parse_schema.cpp
index 0937099..14054a7 100644
--- a/roughpy/src/args/parse_schema.cpp
+++ b/roughpy/src/args/parse_schema.cpp
@@ -121,7 +121,7 @@ void handle_seq_item(StreamSchema* schema, string label, py::sequence data)
 
     auto len = py::len(data);
 
-    RPY_CHECK(len > 1);
+    RPY_CHECK(len >= 1);
     auto type = py_to_channel_type(data[0]);
 
     if (len == 1) {
-- 
2.43.0


From 8e137e307bd57410b0e9264535e1653103895d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:26 +0000
Subject: [PATCH 36/99] fix: tick streams with ticks before and at time zero do
 not loop forever

---
 streams/src/tick_stream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/streams/src/tick_stream.cpp b/streams/src/tick_stream.cpp
index ebd22ce..52668f3 100644
--- a/streams/src/tick_stream.cpp
+++ b/streams/src/tick_stream.cpp
@@ -79,10 +79,12 @@ streams::TickStream::smallest_dyadic_containing_all_events(
 optional<streams::TickStream::DyadicInterval>
 streams::TickStream::smallest_dyadic_containing_all_negative_events() const
 {
+    // Zero starts the first positive clopen interval, but ends the last
+    // negative opencl one.
     auto zeu = (metadata().interval_type == intervals::IntervalType::Clopen)
-            ? std::upper_bound(m_granular_times.begin(), m_granular_times.end(),
+            ? std::lower_bound(m_granular_times.begin(), m_granular_times.end(),
                                param_t(0))
-            : std::lower_bound(m_granular_times.begin(), m_granular_times.end(),
+            : std::upper_bound(m_granular_times.begin(), m_granular_times.end(),
                                param_t(0));
 
     if (zeu != m_granular_times.begin()) {
-- 
2.43.0


From f07ff10d6d05aba8d7d7e1808dde9f723e6edd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:26 +0000
Subject: [PATCH 37/99] fix: tick streams of sparse vectors, categorical ticks,
 ticks after time 1 and deeper queries

---
 roughpy/src/streams/tick_stream.cpp           | 122 ++++++++++++------
 streams/include/roughpy/streams/tick_stream.h |   7 +-
 streams/src/tick_stream.cpp                   |  19 +++
 3 files changed, 105 insertions(+), 43 deletions(-)

diff --git a/roughpy/src/streams/tick_stream.cpp b/roughpy/src/streams/tick_stream.cpp
index 827c9e4..4c452d8 100644
--- a/roughpy/src/streams/tick_stream.cpp
+++ b/roughpy/src/streams/tick_stream.cpp
@@ -60,6 +60,36 @@ static const char* TICK_STREAM_DOC = R"rpydoc(Tick stream
 //                                 const py::handle &data,
 //                                 const py::kwargs &kwargs);
 
+/// The smallest union of dyadic intervals that contains all the ticks
+static intervals::RealInterval granular_support(
+        const std::vector<python::RPy_Tick>& ticks, resolution_t resolution,
+        intervals::IntervalType itype
+)
+{
+    const intervals::DyadicInterval first(
+            ticks.front().timestamp, resolution, itype
+    );
+    const intervals::DyadicInterval last(
+            ticks.back().timestamp, resolution, itype
+    );
+    return {first.inf(), last.sup(), itype};
+}
+
+/// The Lie element that is the given multiple of a single letter
+static algebra::Lie letter_multiple(
+        const algebra::Context& ctx, key_type key, const scalars::Scalar& value,
+        algebra::VectorType vtype
+)
+{
+    scalars::KeyScalarArray data(ctx.ctype());
+    data.allocate_scalars(1);
+    data.allocate_keys(1);
+    data[0] = value;
+    // Construction data is indexed by position in the basis
+    data.keys()[0] = key - 1;
+    return ctx.construct_lie({std::move(data), vtype});
+}
+
 static py::object construct(const py::object& data, py::kwargs kwargs)
 {
 
@@ -134,7 +164,10 @@ static py::object construct(const py::object& data, py::kwargs kwargs)
 
     streams::StreamMetadata meta{
             pmd.width,
-            pmd.support ? *pmd.support : intervals::RealInterval(0, 1),
+            pmd.support ? *pmd.support
+                        : granular_support(
+                                  ticks, *pmd.resolution, pmd.interval_type
+                          ),
             pmd.ctx,
             pmd.scalar_type,
             pmd.vector_type ? *pmd.vector_type : algebra::VectorType::Dense,
@@ -143,6 +176,7 @@ static py::object construct(const py::object& data, py::kwargs kwargs)
 
     std::set<param_t> index;
     std::map<intervals::DyadicInterval, algebra::Lie> raw_data;
+    std::vector<std::pair<param_t, algebra::Lie>> increments;
 
     // For value types, we need to keep track of the last value that appeared
     std::vector<algebra::Lie> previous_values(
@@ -159,56 +193,49 @@ static py::object construct(const py::object& data, py::kwargs kwargs)
                 tick.timestamp, *pmd.resolution, pmd.interval_type
         );
 
-        auto lie_elt = pmd.ctx->zero_lie(meta.cached_vector_type);
+        // The steps that make up this tick, in order
+        std::vector<algebra::Lie> steps;
 
         auto channel_it = schema.find(tick.label);
         RPY_DBG_ASSERT(channel_it != schema.end());
         auto& channel = channel_it->second;
         auto idx = schema.label_to_stream_dim(tick.label);
-        auto key = schema.label_to_lie_key(tick.label);
+        const auto key = schema.label_to_lie_key(tick.label);
+        const auto make_lie
+                = [&](key_type letter, const scalars::Scalar& value) {
+                      return letter_multiple(
+                              *pmd.ctx, letter, value, meta.cached_vector_type
+                      );
+                  };
 
         switch (tick.type) {
             case streams::ChannelType::Increment:
-                lie_elt[key]
-                        += python::py_to_scalar(pmd.scalar_type, tick.data);
+                steps.push_back(make_lie(
+                        key, python::py_to_scalar(pmd.scalar_type, tick.data)
+                ));
                 break;
             case streams::ChannelType::Value: {
                 const auto tick_scalar
                         = python::py_to_scalar(pmd.scalar_type, tick.data);
-                if (channel->is_lead_lag()) {
-                    auto lag_key = key + 1;
-                    const auto& prev_lead = previous_values[idx];
-                    const auto& prev_lag = previous_values[idx + 1];
-
-                    auto next_lead = pmd.ctx->zero_lie(meta.cached_vector_type);
-                    auto next_lag = pmd.ctx->zero_lie(meta.cached_vector_type);
-
-                    next_lead[key] += tick_scalar;
-                    next_lag[lag_key] += tick_scalar;
+                auto new_val = make_lie(key, tick_scalar);
+                steps.push_back(new_val.sub(previous_values[idx]));
+                previous_values[idx] = std::move(new_val);
 
-                    lie_elt = pmd.ctx->cbh(
-                            next_lead.sub(prev_lead), next_lag.sub(prev_lag),
-                            meta.cached_vector_type
-                    );
-
-                    previous_values[idx] = std::move(next_lead);
-                    previous_values[idx + 1] = std::move(next_lag);
-
-                    break;
-                } else {
-                    const auto& prev_val = previous_values[idx];
-                    auto new_val = pmd.ctx->zero_lie(meta.cached_vector_type);
-
-                    new_val[key] += tick_scalar;
-
-                    lie_elt = new_val.sub(prev_val);
-                    previous_values[idx] = std::move(new_val);
-
-                    break;
+                if (channel->is_lead_lag()) {
+                    auto new_lag = make_lie(key + 1, tick_scalar);
+                    steps.push_back(new_lag.sub(previous_values[idx + 1]));
+                    previous_values[idx + 1] = std::move(new_lag);
                 }
+                break;
             }
             case streams::ChannelType::Categorical: {
-                lie_elt[key] += scalars::Scalar(1);
+                const auto variant_key = schema.label_to_lie_key(
+                        tick.label + ":" + py::str(tick.data).cast<string>()
+                );
+                steps.push_back(make_lie(
+                        variant_key,
+                        python::py_to_scalar(pmd.scalar_type, py::int_(1))
+                ));
                 break;
             }
             case streams::ChannelType::Lie:
@@ -219,16 +246,26 @@ static py::object construct(const py::object& data, py::kwargs kwargs)
 
         auto current_time = tick.timestamp;
         if (param_needs_adding) {
-            lie_elt[time_key] = current_time - previous_time;
+            // Time moves along with the first step of the tick
+            steps.front().add_inplace(make_lie(
+                    time_key,
+                    python::py_to_scalar(
+                            pmd.scalar_type,
+                            py::float_(current_time - previous_time)
+                    )
+            ));
         }
         previous_time = current_time;
 
-
         auto& existing = raw_data[di];
-        if (existing) {
-            existing = pmd.ctx->cbh(existing, lie_elt, meta.cached_vector_type);
-        } else {
-            existing = std::move(lie_elt);
+        for (auto& step : steps) {
+            increments.emplace_back(di.included_end(), step);
+            if (existing) {
+                existing
+                        = pmd.ctx->cbh(existing, step, meta.cached_vector_type);
+            } else {
+                existing = std::move(step);
+            }
         }
 
         index.insert(di.included_end());
@@ -236,7 +273,8 @@ static py::object construct(const py::object& data, py::kwargs kwargs)
 
     streams::Stream result(streams::TickStream(
             std::vector<param_t>(index.begin(), index.end()),
-            std::move(raw_data), *pmd.resolution, pmd.schema, std::move(meta)
+            std::move(raw_data), std::move(increments), *pmd.resolution,
+            pmd.schema, std::move(meta)
     ));
 
     return py::reinterpret_steal<py::object>(
diff --git a/streams/include/roughpy/streams/tick_stream.h b/streams/include/roughpy/streams/tick_stream.h
index d82cf80..3b4e534 100644
--- a/streams/include/roughpy/streams/tick_stream.h
+++ b/streams/include/roughpy/streams/tick_stream.h
@@ -46,6 +46,9 @@ class ROUGHPY_STREAMS_EXPORT TickStream : public StreamInterface
 {
     std::vector<param_t> m_granular_times;
     std::map<intervals::DyadicInterval, algebra::Lie> m_data;
+    // The individual increments, in order, with their granular times. These
+    // are used for queries in contexts other than the default context.
+    std::vector<std::pair<param_t, algebra::Lie>> m_increments;
     resolution_t m_resolution;
 
     using DyadicInterval = intervals::DyadicInterval;
@@ -66,12 +69,13 @@ class ROUGHPY_STREAMS_EXPORT TickStream : public StreamInterface
 public:
     TickStream(std::vector<param_t>&& granular_times,
                std::map<intervals::DyadicInterval, algebra::Lie>&& data,
+               std::vector<std::pair<param_t, algebra::Lie>>&& increments,
                resolution_t resolution,
                std::shared_ptr<streams::StreamSchema> schema,
                StreamMetadata&& md)
         : StreamInterface(std::move(md), std::move(schema)),
           m_granular_times(std::move(granular_times)), m_data(std::move(data)),
-          m_resolution(resolution)
+          m_increments(std::move(increments)), m_resolution(resolution)
     {
         if (auto di_negative
             = smallest_dyadic_containing_all_negative_events()) {
@@ -130,6 +134,7 @@ RPY_SERIAL_SERIALIZE_FN_IMPL(TickStream)
     RPY_SERIAL_SERIALIZE_BASE(StreamInterface);
     RPY_SERIAL_SERIALIZE_NVP("granular_times", m_granular_times);
     RPY_SERIAL_SERIALIZE_NVP("data", m_data);
+    RPY_SERIAL_SERIALIZE_NVP("increments", m_increments);
     RPY_SERIAL_SERIALIZE_NVP("resolution", m_resolution);
 }
 
diff --git a/streams/src/tick_stream.cpp b/streams/src/tick_stream.cpp
index 52668f3..1596eba 100644
--- a/streams/src/tick_stream.cpp
+++ b/streams/src/tick_stream.cpp
@@ -168,6 +168,7 @@ streams::TickStream::TickStream(scalars::ScalarStream&& raw_data,
                     {raw_data[i], raw_key_stream[i]},
                     smeta.cached_vector_type};
             auto new_lie = ctx.construct_lie(cdata);
+            m_increments.emplace_back(di.included_end(), new_lie);
 
             auto& existing = m_data[di];
             if (existing) {
@@ -204,6 +205,7 @@ streams::TickStream::TickStream(streams::StreamConstructionHelper&& helper,
     for (auto&& item : helper.finalise()) {
         const DyadicInterval di(item.first, m_resolution, itype);
         index.insert(di.included_end());
+        m_increments.emplace_back(di.included_end(), item.second);
 
         auto& existing = m_data[di];
         if (existing) {
@@ -227,6 +229,23 @@ streams::TickStream::log_signature_impl(const intervals::Interval& interval,
                                         const algebra::Context& ctx) const
 {
     RPY_DBG_ASSERT(dynamic_cast<const DyadicInterval*>(&interval) == &interval);
+
+    const auto& md = metadata();
+    if (&ctx != md.default_context.get()) {
+        // The cached values are truncated at the depth of the default context,
+        // so they cannot be combined in another one.
+        const auto& di = static_cast<const DyadicInterval&>(interval);
+        std::vector<algebra::Lie> increments;
+        for (const auto& [time, increment] : m_increments) {
+            if (di.contains_point(time)) {
+                increments.push_back(
+                        ctx.convert(increment, md.cached_vector_type)
+                );
+            }
+        }
+        return ctx.cbh(increments, md.cached_vector_type);
+    }
+
     if (auto dil = smallest_dyadic_containing_all_events(
                 static_cast<const DyadicInterval&>(interval), m_resolution)) {
         auto found = m_data.find(*dil);
-- 
2.43.0


From 78763eb8633b51721a34300e07372a27f3694abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:43 +0000
Subject: [PATCH 38/99] fix: keep the cached increments of dynamically
 constructed streams consistent

The value over a dyadic interval is now always the combination of the values
over its two halves, at every accuracy, on both sides of 0, and in the context
requested. The variance of a Brownian increment is the length of its interval.
---
 .../streams/dynamically_constructed_stream.h  |  45 ++-
 streams/src/brownian_stream.cpp               |   8 +-
 .../src/dynamically_constructed_stream.cpp    | 314 ++++++++----------
 3 files changed, 174 insertions(+), 193 deletions(-)

diff --git a/streams/include/roughpy/streams/dynamically_constructed_stream.h b/streams/include/roughpy/streams/dynamically_constructed_stream.h
index c818977..e98c2ff 100644
--- a/streams/include/roughpy/streams/dynamically_constructed_stream.h
+++ b/streams/include/roughpy/streams/dynamically_constructed_stream.h
@@ -87,6 +87,13 @@ public:
     {
         return increment->first.power() == increment->second.accuracy();
     }
+
+    /// The root of a tree is its own parent (and its own sibling)
+    RPY_NO_DISCARD
+    static bool is_root(data_increment increment)
+    {
+        return increment->second.parent() == increment;
+    }
 };
 
 class ROUGHPY_STREAMS_EXPORT DynamicallyConstructedStream : public StreamInterface
@@ -104,7 +111,15 @@ private:
     mutable std::recursive_mutex m_lock;
     mutable data_tree_type m_data_tree;
 
-    void refine_accuracy(data_increment increment, resolution_t desired) const;
+    /// Make the accuracy of the increment at least the desired resolution.
+    /// Returns true if the increment changed, in which case the parents of the
+    /// increment have to be updated.
+    bool refine_accuracy(data_increment increment, resolution_t desired) const;
+
+    /// Get the root of the tree on the same side of 0 as the interval, or the
+    /// end of the map if there is no such tree.
+    RPY_NO_DISCARD
+    data_increment find_root(const DyadicInterval& di) const;
 
     RPY_NO_DISCARD
     data_increment expand_root_until_contains(data_increment root,
@@ -115,14 +130,23 @@ private:
                                resolution_t accuracy,
                                data_increment hint) const;
 
+    /// Divide the interval of a leaf in two
+    void insert_children(data_increment leaf) const;
+
     RPY_NO_DISCARD
-    data_increment insert_children_and_refine(data_increment leaf,
-                                              DyadicInterval interval) const;
+    pair<data_increment, data_increment>
+    children_of(data_increment increment) const;
 
-    data_increment update_parent_accuracy(data_increment below) const;
+    /// Recompute the value and the accuracy from those of the children
+    void recombine(data_increment increment) const;
 
+    /// Recompute all the increments above the given increment
     void update_parents(data_increment current) const;
 
+    RPY_NO_DISCARD
+    Lie lie_in_context(data_increment increment,
+                       const algebra::Context& ctx) const;
+
 protected:
     /// Safely update the given increment with the new values and accuracy
     void update_increment(data_increment increment, Lie&& new_value,
@@ -217,16 +241,11 @@ void DynamicallyConstructedStream::store_cache(Archive& archive) const
         indices[item.first] = index++;
     }
 
-    const auto dtend = m_data_tree.end();
     for (const auto& [interval, increment] : m_data_tree) {
         auto& entry = linear_data[indices[interval]];
 
-        if (increment.parent() != dtend) {
-            entry.parent_idx = indices[increment.parent()->first];
-        }
-        if (increment.sibling() != dtend) {
-            entry.sibling_idx = indices[increment.sibling()->first];
-        }
+        entry.parent_idx = indices[increment.parent()->first];
+        entry.sibling_idx = indices[increment.sibling()->first];
     }
 
     RPY_SERIAL_SERIALIZE_NVP("cache_data", linear_data);
@@ -249,12 +268,12 @@ void DynamicallyConstructedStream::load_cache(Archive& archive,
         if (item.parent_idx != -1) {
             entry.parent(m_data_tree.find(linear_data[item.parent_idx].interval));
         } else {
-            entry.parent(m_data_tree.end());
+            entry.parent(m_data_tree.find(item.interval));
         }
         if (item.sibling_idx != -1) {
             entry.sibling(m_data_tree.find(linear_data[item.sibling_idx].interval));
         } else {
-            entry.sibling(m_data_tree.end());
+            entry.sibling(m_data_tree.find(item.interval));
         }
     }
 }
diff --git a/streams/src/brownian_stream.cpp b/streams/src/brownian_stream.cpp
index 7769afd..39419d5 100644
--- a/streams/src/brownian_stream.cpp
+++ b/streams/src/brownian_stream.cpp
@@ -35,6 +35,8 @@
 
 #include <cereal/types/vector.hpp>
 
+#include <cmath>
+
 using namespace rpy;
 using namespace rpy::streams;
 
@@ -46,7 +48,7 @@ algebra::Lie BrownianStream::gaussian_increment(
     const auto& md = metadata();
     scalars::KeyScalarArray incr(p_generator->normal_random(
             scalars::Scalar(0.),
-            scalars::Scalar(length),
+            scalars::Scalar(std::sqrt(length)),
             md.width
     ));
     return ctx.construct_lie({std::move(incr), md.cached_vector_type});
@@ -69,7 +71,9 @@ pair<algebra::Lie, algebra::Lie> BrownianStream::compute_child_lie_increments(
     const auto mean
             = parent_value.smul(scalars::Scalar(md.data_scalar_type, 1, 2));
 
-    auto length = ldexp(0.5, left_di.power());
+    // Conditionally on the value for the whole interval, the increment over each
+    // half is normal with variance equal to half the length of the half.
+    const auto length = ldexp(0.5, -left_di.power());
 
     const auto perturbation = gaussian_increment(*md.default_context, length);
     return {mean.add(perturbation), mean.sub(perturbation)};
diff --git a/streams/src/dynamically_constructed_stream.cpp b/streams/src/dynamically_constructed_stream.cpp
index d55e045..474ed2d 100644
--- a/streams/src/dynamically_constructed_stream.cpp
+++ b/streams/src/dynamically_constructed_stream.cpp
@@ -38,60 +38,34 @@
 #include "roughpy/intervals/real_interval.h"
 
 #include <roughpy/algebra/lie.h>
+
+#include <algorithm>
+#include <iterator>
+
 #include <cereal/types/vector.hpp>
 
 using namespace rpy;
 using namespace rpy::streams;
 
-void streams::DynamicallyConstructedStream::refine_accuracy(
+bool streams::DynamicallyConstructedStream::refine_accuracy(
     DynamicallyConstructedStream::data_increment increment,
     resolution_t desired) const
 {
-    RPY_DBG_ASSERT(increment->first.power() < desired);
-    //
-    //    // get all the intervals in the tree "below" increment->first
-    //    auto range = m_data_tree.equal_range(increment->first);
-    //
-    //    // update all the leaves below until we reach the desired accuracy
-    //    while (range.first != range.second) {
-    //        if (range.first->second.accuracy() >= desired) {
-    //            // Do nothing, but advance until after this interval
-    //            DyadicInterval val(range.first->first);
-    //            ++val;
-    //
-    //            for (; range.first->first < val; ++range.first) {}
-    //        } else if (DataIncrement::is_leaf(range.first)) {
-    //            // If we're at depth and have a leaf, then
-    //            // divide and refine down.
-    //            DyadicInterval val(range.first->first);
-    //            val.shrink_interval_left();
-    //            range.first = insert_children_and_refine(range.first, val);
-    //        } else {
-    //            // If we're not a leaf, then continue down the tree until
-    //            // we reach a leaf.
-    //            ++range.first;
-    //        }
-    //    }
-    auto [leaf_above, end] = m_data_tree.equal_range(increment->first);
-
-    for (; leaf_above != end && leaf_above->first.power() < desired; ++leaf_above) {
-        if (!DataIncrement::is_leaf(leaf_above)) { continue; }
-
-        DyadicInterval refined_inc(increment->first);
-        DyadicInterval refined_end(increment->first);
-        refined_inc.shrink_interval_left(desired - increment->first.power());
-        ++refined_end;
-        refined_end.shrink_interval_left(desired - increment->first.power());
-
-        for (; refined_inc < refined_end; ++(++refined_inc)) {
-            while (leaf_above->first.contains_dyadic(refined_inc)
-                && !dyadic_equals(leaf_above->first, refined_inc)) {
-                leaf_above = insert_children_and_refine(leaf_above, refined_inc);
-            }
-
-            update_parents(leaf_above);
-        }
+    if (increment->second.accuracy() >= desired) { return false; }
+
+    if (DataIncrement::is_leaf(increment)) { insert_children(increment); }
+
+    const auto children = children_of(increment);
+    try {
+        refine_accuracy(children.first, desired);
+        refine_accuracy(children.second, desired);
+    } catch (...) {
+        // One of the children might have been refined already
+        recombine(increment);
+        throw;
     }
+    recombine(increment);
+    return true;
 }
 
 DynamicallyConstructedStream::data_increment
@@ -101,14 +75,34 @@ streams::DynamicallyConstructedStream::insert_node(
     resolution_t accuracy,
     DynamicallyConstructedStream::data_increment hint) const
 {
-    DataIncrement new_incr(std::move(value),
-                           accuracy,
-                           m_data_tree.end(),
-                           m_data_tree.end());
-    auto [it, inserted] = m_data_tree.insert({di, std::move(new_incr)});
+    DataIncrement new_incr(std::move(value), accuracy);
+    auto it = m_data_tree.emplace_hint(hint, di, std::move(new_incr));
+
+    // Until it is told otherwise, a node is the root of a tree
+    it->second.parent(it);
+    it->second.sibling(it);
     return it;
 }
 
+DynamicallyConstructedStream::data_increment
+streams::DynamicallyConstructedStream::find_root(const DyadicInterval& di) const
+{
+    // No dyadic interval has 0 in its interior, so there is one tree for the
+    // intervals on each side of 0. One of these holds the first interval in the
+    // map, and the other one holds the last.
+    const auto side = [](const DyadicInterval& interval) {
+        return interval.unit() * interval.multiplier() >= 0;
+    };
+
+    if (m_data_tree.empty()) { return m_data_tree.end(); }
+    for (auto node : {m_data_tree.begin(), std::prev(m_data_tree.end())}) {
+        while (!DataIncrement::is_root(node)) { node = node->second.parent(); }
+        if (side(node->first) == side(di)) { return node; }
+    }
+
+    return m_data_tree.end();
+}
+
 typename DynamicallyConstructedStream::data_increment
 streams::DynamicallyConstructedStream::expand_root_until_contains(
     data_increment root,
@@ -138,11 +132,7 @@ streams::DynamicallyConstructedStream::expand_root_until_contains(
             make_neighbour_root_increment(neighbour),
             neighbour.power(),
             old_root);
-        root = insert_node(new_root,
-                           make_new_root_increment(new_root),
-                           old_root->first.power(),
-                           old_root);
-        update_parent_accuracy(old_root);
+        root = insert_node(new_root, Lie(), new_root.power(), old_root);
 
         RPY_DBG_ASSERT(old_root != it_neighbour);
         RPY_DBG_ASSERT(it_neighbour != root);
@@ -151,6 +141,8 @@ streams::DynamicallyConstructedStream::expand_root_until_contains(
         old_root->second.sibling(it_neighbour);
         it_neighbour->second.parent(root);
         it_neighbour->second.sibling(old_root);
+
+        recombine(root);
     }
     return root;
 }
@@ -176,83 +168,46 @@ streams::DynamicallyConstructedStream::lie_value(
     return increment->second.lie();
 }
 
-DynamicallyConstructedStream::data_increment
-streams::DynamicallyConstructedStream::update_parent_accuracy(
-    DynamicallyConstructedStream::data_increment below) const
+pair<DynamicallyConstructedStream::data_increment,
+     DynamicallyConstructedStream::data_increment>
+streams::DynamicallyConstructedStream::children_of(
+    DynamicallyConstructedStream::data_increment increment) const
 {
-    const auto& md = metadata();
-    auto parent = below->second.parent();
-    const auto dtend = m_data_tree.end();
-
-    if (parent != dtend) {
-        // We're not at the root, so parent has a sibling
-        auto sibling = below->second.sibling();
-        auto accuracy_available = std::min(below->second.accuracy(),
-                                           sibling->second.accuracy());
-
-        if (parent->second.accuracy() < accuracy_available) {
-            if (below->first.aligned()) {
-                parent->second.lie(md.default_context->cbh(
-                    below->second.lie(),
-                    sibling->second.lie(),
-                    md.cached_vector_type));
-            } else {
-                parent->second.lie(md.default_context->cbh(
-                    sibling->second.lie(),
-                    below->second.lie(),
-                    md.cached_vector_type));
-            }
-            parent->second.accuracy(accuracy_available);
-            below = parent;
-        }
-    }
+    RPY_DBG_ASSERT(!DataIncrement::is_leaf(increment));
+    DyadicInterval left_di(increment->first);
+    left_di.shrink_interval_left();
 
-    return below;
+    auto left = m_data_tree.find(left_di);
+    RPY_DBG_ASSERT(left != m_data_tree.end());
+    return {left, left->second.sibling()};
 }
 
-void streams::DynamicallyConstructedStream::update_parents(
-    DynamicallyConstructedStream::data_increment current) const
+void streams::DynamicallyConstructedStream::recombine(
+    DynamicallyConstructedStream::data_increment increment) const
 {
-    //    data_increment below(current);
-    //    data_increment top = update_parent_accuracy(below);
-    //    while (top != below) {
-    //        below = top;
-    //        top = update_parent_accuracy(below);
-    //    }
     const auto& md = metadata();
-    auto root = m_data_tree.begin();
+    const auto [left, right] = children_of(increment);
 
-    while (current != root) {
-        auto parent = current->second.parent();
-        RPY_DBG_ASSERT(parent != m_data_tree.end());
-        auto sibling = current->second.sibling();
-
-        auto accuracy_available = std::min(current->second.accuracy(),
-                                           sibling->second.accuracy());
-        if (accuracy_available <= parent->second.accuracy()) { break; }
+    increment->second.lie(md.default_context->cbh(left->second.lie(),
+        right->second.lie(),
+        md.cached_vector_type));
+    increment->second.accuracy(std::min(left->second.accuracy(),
+                                        right->second.accuracy()));
+}
 
-        if (current->first.aligned()) {
-            parent->second.lie(md.default_context->cbh(current->second.lie(),
-                sibling->second.lie(),
-                md.cached_vector_type));
-        } else {
-            parent->second.lie(md.default_context->cbh(sibling->second.lie(),
-                current->second.lie(),
-                md.cached_vector_type));
-        }
-        parent->second.accuracy(accuracy_available);
-        current = parent;
+void streams::DynamicallyConstructedStream::update_parents(
+    DynamicallyConstructedStream::data_increment current) const
+{
+    while (!DataIncrement::is_root(current)) {
+        current = current->second.parent();
+        recombine(current);
     }
 }
 
-DynamicallyConstructedStream::data_increment
-streams::DynamicallyConstructedStream::insert_children_and_refine(
-    DynamicallyConstructedStream::data_increment leaf,
-    DynamicallyConstructedStream::DyadicInterval interval) const
+void streams::DynamicallyConstructedStream::insert_children(
+    DynamicallyConstructedStream::data_increment leaf) const
 {
-
     RPY_DBG_ASSERT(DataIncrement::is_leaf(leaf));
-    RPY_DBG_ASSERT(leaf->first.contains_dyadic(interval));
 
     DyadicInterval left(leaf->first);
     DyadicInterval right(leaf->first);
@@ -279,10 +234,34 @@ streams::DynamicallyConstructedStream::insert_children_and_refine(
     right_incr.sibling(it_left);
     right_incr.parent(leaf);
 
-    update_parents(it_left);
+    // The leaf is now the combination of its children
+    leaf->second.accuracy(left.power());
+    recombine(leaf);
+}
+
+DynamicallyConstructedStream::Lie
+streams::DynamicallyConstructedStream::lie_in_context(
+    DynamicallyConstructedStream::data_increment increment,
+    const algebra::Context& ctx) const
+{
+    const auto& md = metadata();
+    if (&ctx == md.default_context.get()) { return increment->second.lie(); }
+
+    // The combined values are truncated to the depth of the default context,
+    // so the values of the leaves must be combined again in the new context.
+    std::vector<Lie> lies;
+    for (auto it = increment; it != m_data_tree.end()
+         && increment->first.contains_dyadic(it->first); ++it) {
+        if (DataIncrement::is_leaf(it)) {
+            lies.push_back(ctx.convert(it->second.lie(),
+                                       md.cached_vector_type));
+        }
+    }
+    if (increment->first.type() == intervals::IntervalType::Opencl) {
+        std::reverse(lies.begin(), lies.end());
+    }
 
-    if (it_left->first.contains_dyadic(interval)) { return it_left; }
-    return it_right;
+    return ctx.cbh(lies, md.cached_vector_type);
 }
 
 algebra::Lie DynamicallyConstructedStream::log_signature(
@@ -291,69 +270,48 @@ algebra::Lie DynamicallyConstructedStream::log_signature(
     const algebra::Context& ctx) const
 {
     std::lock_guard<std::recursive_mutex> access(m_lock);
-    const auto end = m_data_tree.end();
 
-    auto found = m_data_tree.find(interval);
-    if (found != end) {
-        if (found->second.accuracy() < resolution) {
-            // We need to recurse down and increase the accuracy
-            refine_accuracy(found, resolution);
+    auto node = m_data_tree.find(interval);
+    if (node == m_data_tree.end()) {
+        node = find_root(interval);
+        if (node == m_data_tree.end()) {
+            // There is no data on this side of 0 yet
+            node = insert_node(interval,
+                               make_new_root_increment(interval),
+                               interval.power(),
+                               node);
         }
-
-        // Our current value is now fine.
-        return found->second.lie();
+        node = expand_root_until_contains(node, interval);
     }
-
-    auto root = m_data_tree.begin();
-    if (root == end) {
-        // The tree currently holds no data.
-        root = insert_node(interval,
-                           make_new_root_increment(interval),
-                           interval.power(),
-                           root);
-
-        if (root->second.accuracy() >= resolution) {
-            return root->second.lie();
-        }
-    }
-
-    // If we're here, the root exists and may or may not contain the
-    // interval of interest.
-    root = expand_root_until_contains(root, interval);
-    RPY_DBG_ASSERT(root->first.contains_dyadic(interval));
-
-    // Now the root contains the interval of interest. Let's compute
-    // what we need
-    // Walk down the tree until we get to a leaf that contains the
-    // required interval or wr reach the required interval
-    while (!dyadic_equals(root->first, interval)
-        && !DataIncrement::is_leaf(root)) {
-        auto left = ++root;
-        auto right = left->second.sibling();
-
-        RPY_DBG_ASSERT(left->first.contains_dyadic(interval)
-            || right->first.contains_dyadic(interval));
-        if (left->first.contains_dyadic(interval)) { root = left; } else {
-            root = right;
+    RPY_DBG_ASSERT(node->first.contains_dyadic(interval));
+
+    // The value in each node of the tree that is not a leaf is the combination
+    // of the values of its children. So, after making any change, the values
+    // in the nodes above must be recomputed.
+    bool changed = false;
+    try {
+        // Walk down the tree, creating new nodes when necessary, until we reach
+        // the required interval.
+        while (!dyadic_equals(node->first, interval)) {
+            if (DataIncrement::is_leaf(node)) {
+                insert_children(node);
+                changed = true;
+            }
+            const auto children = children_of(node);
+            node = children.first->first.contains_dyadic(interval)
+                    ? children.first
+                    : children.second;
         }
-    }
-    RPY_DBG_ASSERT(root->first.contains_dyadic(interval)
-        || dyadic_equals(root->first, interval));
 
-    // First, compute all the children recursively until we reach
-    // the desired interval.
-    while (!dyadic_equals(root->first, interval)) {
-        root = insert_children_and_refine(root, interval);
+        // Now refine the accuracy of our value until it meets our requirement
+        changed |= refine_accuracy(node, resolution);
+    } catch (...) {
+        update_parents(node);
+        throw;
     }
+    if (changed) { update_parents(node); }
 
-    // Check again if we now have the interval required
-    if (dyadic_equals(root->first, interval)
-        && root->second.accuracy() >= resolution) { return root->second.lie(); }
-
-    // Now refine the accuracy of our value until it meets our requirement
-    refine_accuracy(root, resolution);
-
-    return root->second.lie();
+    return lie_in_context(node, ctx);
 }
 
 algebra::Lie
-- 
2.43.0


From d66b20ba4957a803072729e40fdb7aa23c348673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 39/99] fix: piecewise abelian streams: queries inside a piece,
 pieces out of order, support

A query strictly inside of a piece, or overlapping only its beginning, used the
fraction from the beginning of the query to the end of the piece. The given
support was ignored, and so were pieces given after a later one.
---
 roughpy/src/streams/piecewise_abelian_stream.cpp | 14 +++++++++++++-
 streams/src/piecewise_abelian_stream.cpp         |  9 +++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/roughpy/src/streams/piecewise_abelian_stream.cpp b/roughpy/src/streams/piecewise_abelian_stream.cpp
index 73b226d..47aeb28 100644
--- a/roughpy/src/streams/piecewise_abelian_stream.cpp
+++ b/roughpy/src/streams/piecewise_abelian_stream.cpp
@@ -41,6 +41,8 @@
 #include "args/kwargs_to_path_metadata.h"
 #include "stream.h"
 
+#include <algorithm>
+
 using namespace rpy;
 using namespace pybind11::literals;
 
@@ -62,12 +64,22 @@ static py::object construct_piecewise_lie_stream(
         }
         pmd.ctx = algebra::get_context(pmd.width, pmd.depth, pmd.scalar_type);
     }
+    // The stream expects its pieces in order
+    std::stable_sort(
+            lies.begin(),
+            lies.end(),
+            [](const auto& lhs, const auto& rhs) {
+                return lhs.first.inf() < rhs.first.inf();
+            }
+    );
+
     // TODO: make this more robust
 
     using nl = std::numeric_limits<param_t>;
     param_t a = nl::infinity();
     param_t b = -nl::infinity();
     for (auto& piece : lies) {
+        RPY_CHECK_EQ(piece.second.width(), pmd.ctx->width(), py::value_error);
         if (piece.first.inf() < a) { a = piece.first.inf(); }
         if (piece.first.sup() > b) { b = piece.first.sup(); }
     }
@@ -78,7 +90,7 @@ static py::object construct_piecewise_lie_stream(
 
     python::check_for_excess_arguments(kwargs);
 
-    pmd.support = intervals::RealInterval(a, b);
+    if (!pmd.support) { pmd.support = intervals::RealInterval(a, b); }
 
     streams::Stream result(streams::PiecewiseAbelianStream(
             std::move(lies),
diff --git a/streams/src/piecewise_abelian_stream.cpp b/streams/src/piecewise_abelian_stream.cpp
index 39ecf94..4ca0cd3 100644
--- a/streams/src/piecewise_abelian_stream.cpp
+++ b/streams/src/piecewise_abelian_stream.cpp
@@ -173,11 +173,16 @@ algebra::Lie PiecewiseAbelianStream::log_signature_impl(
         } else if (pa >= a && pb <= b) {
             // [-----[p-----p)---)
             lies.push_back(piece.second);
-        } else if (pb <= pb) {
+        } else if (pa < a && pb > b) {
+            // [p---[-----)---p)
+            lies.push_back(
+                    piece.second.smul(scalars::Scalar((b - a) / (pb - pa)))
+            );
+        } else if (pa < a) {
             // [p---[---p)-----)
             lies.push_back(piece.second.smul(to_multiplier_upper(piece.first, a)
             ));
-        } else if (pa >= a && pb > b) {
+        } else {
             // [---[p----)----p)
             lies.push_back(piece.second.smul(to_multiplier_lower(piece.first, b)
             ));
-- 
2.43.0


From a07741c98cf42db04c1d00c35c1ee6ffe2984160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 40/99] fix: tensor valued streams: explicit resolutions,
 domain, repeated parameters

The resolution of a query was not passed on to the increments, the signature of
a restricted stream included increments outside of its domain, and only the
first of the values at the same parameter was used.
---
 streams/src/lie_increment_stream.cpp | 14 +++++++++++---
 streams/src/tensor_valued_stream.cpp | 19 ++++++++++++++++++-
 streams/src/tensor_valued_stream.h   |  7 +++++++
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/streams/src/lie_increment_stream.cpp b/streams/src/lie_increment_stream.cpp
index dcb79af..49948fd 100644
--- a/streams/src/lie_increment_stream.cpp
+++ b/streams/src/lie_increment_stream.cpp
@@ -181,11 +181,19 @@ LieIncrementStream::LieIncrementStream(std::vector<pair<param_t, Lie>>&& data,
     std::shared_ptr<StreamSchema> schema)
         : base_t(std::move(md), std::move(schema))
 {
+    const auto& meta = this->metadata();
+
     m_data.reserve(data.size());
-    for (auto&& [param, lie] : data | views::move) {
-        m_data.emplace(param, std::move(lie));
-    }
+    for (auto& [param, lie] : data) {
+        auto [it, inserted] = m_data.try_emplace(param, lie);
 
+        if (!inserted) {
+            // Increments at the same parameter value are taken in data order
+            it->second = meta.default_context->cbh(it->second,
+                                                 lie,
+                                                 meta.cached_vector_type);
+        }
+    }
 }
 
 algebra::Lie LieIncrementStream::log_signature_impl(
diff --git a/streams/src/tensor_valued_stream.cpp b/streams/src/tensor_valued_stream.cpp
index 9290d4f..e5ef51f 100644
--- a/streams/src/tensor_valued_stream.cpp
+++ b/streams/src/tensor_valued_stream.cpp
@@ -36,7 +36,24 @@ algebra::Lie TensorValuedStream::log_signature_impl(
     const intervals::Interval& interval,
     const algebra::Context& ctx) const
 {
-    return p_increment_stream->log_signature(interval, ctx);
+    if (!m_domain.intersects_with(interval)) {
+        return ctx.zero_lie(metadata().cached_vector_type);
+    }
+    return p_increment_stream->log_signature(intersection(m_domain, interval),
+                                             ctx);
+}
+
+algebra::Lie TensorValuedStream::log_signature(
+    const intervals::Interval& interval,
+    resolution_t resolution,
+    const algebra::Context& ctx) const
+{
+    if (!m_domain.intersects_with(interval)) {
+        return ctx.zero_lie(metadata().cached_vector_type);
+    }
+    return p_increment_stream->log_signature(intersection(m_domain, interval),
+                                             resolution,
+                                             ctx);
 }
 
 const intervals::RealInterval& TensorValuedStream::domain() const noexcept
diff --git a/streams/src/tensor_valued_stream.h b/streams/src/tensor_valued_stream.h
index 969e15b..e8bce38 100644
--- a/streams/src/tensor_valued_stream.h
+++ b/streams/src/tensor_valued_stream.h
@@ -39,6 +39,13 @@ public:
     RPY_NO_DISCARD bool
     empty(const intervals::Interval& interval) const noexcept override;
 
+    using ValueStream::log_signature;
+
+    RPY_NO_DISCARD algebra::Lie
+    log_signature(const intervals::Interval& interval,
+                  resolution_t resolution,
+                  const algebra::Context& ctx) const override;
+
 protected:
     RPY_NO_DISCARD algebra::Lie log_signature_impl(
         const intervals::Interval& interval,
-- 
2.43.0


From 1705875074fb69fe6e5dedddf2c52f35a53ec3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:10 +0000
Subject: [PATCH 41/99] fix: TensorValuedStream crashed without keyword
 arguments or a context, in subclasses, and in repr

---
 roughpy/src/streams/tensor_valued_stream.cpp | 86 ++++++++++++++------
 1 file changed, 59 insertions(+), 27 deletions(-)

diff --git a/roughpy/src/streams/tensor_valued_stream.cpp b/roughpy/src/streams/tensor_valued_stream.cpp
index 3e9224a..6672143 100644
--- a/roughpy/src/streams/tensor_valued_stream.cpp
+++ b/roughpy/src/streams/tensor_valued_stream.cpp
@@ -5,6 +5,7 @@
 #include "tensor_valued_stream.h"
 
 #include <memory>
+#include <sstream>
 
 #include "roughpy/algebra/free_tensor.h"
 #include "roughpy/streams/value_stream.h"
@@ -88,25 +89,27 @@ static PyObject* stvs_new(PyTypeObject* subtype,
 
     auto* self = reinterpret_cast<RPySimpleTensorValuedStream*>(new_obj.ptr());
 
+    // Make sure the shared pointer is properly initialised
+    construct_inplace(&self->p_data);
+
     auto success = python::with_caught_exceptions([&]() {
-        // Make sure the shared pointer is properly initialised
-        construct_inplace(&self->p_data,
-                          make_simple_tensor_valued_stream(
-                              incr_stream->m_data.impl(),
-                              py::cast<const FreeTensor&>(initial_value),
-                              py::cast<const intervals::Interval&>(domain)
-                          ));
+        self->p_data = make_simple_tensor_valued_stream(
+                incr_stream->m_data.impl(),
+                py::cast<const FreeTensor&>(initial_value),
+                py::cast<const intervals::Interval&>(domain)
+        );
     });
 
     RPY_DBG_ASSERT(self->p_data || !success);
+    if (!success) { return nullptr; }
 
     return new_obj.release().ptr();
 }
 
-static void stvs_finalize(PyObject* self)
+static void stvs_dealloc(PyObject* self)
 {
-    auto& data = reinterpret_cast<RPySimpleTensorValuedStream*>(self)->p_data;
-    if (data) { data.reset(); }
+    std::destroy_at(
+            &reinterpret_cast<RPySimpleTensorValuedStream*>(self)->p_data);
     Py_TYPE(self)->tp_free(self);
 }
 
@@ -184,7 +187,14 @@ static PyObject* stvs_domain(PyObject* self)
     return result.release().ptr();
 }
 
-static PyObject* stvs_repr(PyObject* self) { return PyObject_Repr(self); }
+static PyObject* stvs_repr(PyObject* self)
+{
+    std::stringstream ss;
+    const auto& stream
+            = reinterpret_cast<RPySimpleTensorValuedStream*>(self)->p_data;
+    ss << "TensorValuedStream(domain=" << stream->domain() << ')';
+    return PyUnicode_FromString(ss.str().c_str());
+}
 
 static PyObject* stvs_signature(PyObject* self,
                                 PyObject* args,
@@ -194,12 +204,15 @@ static PyObject* stvs_signature(PyObject* self,
 
     const auto& stream = reinterpret_cast<RPySimpleTensorValuedStream*>(self)->
             p_data;
-    if (parse_sig_args(args, kwargs, &stream->metadata(), &sig_args)
-        < 0) { return nullptr; }
+    int parsed = -1;
+    auto success = python::with_caught_exceptions([&]() {
+        parsed = parse_sig_args(args, kwargs, &stream->metadata(), &sig_args);
+    });
+    if (!success || parsed < 0) { return nullptr; }
 
     py::object result;
 
-    auto success = python::with_caught_exceptions([&]() {
+    success = python::with_caught_exceptions([&]() {
         if (!sig_args.interval) { sig_args.interval = stream->domain(); }
         if (!sig_args.resolution) {
             sig_args.resolution = stream->metadata().default_resolution;
@@ -231,12 +244,15 @@ static PyObject* stvs_log_signature(PyObject* self,
 
     const auto& stream = reinterpret_cast<RPySimpleTensorValuedStream*>(self)->
             p_data;
-    if (parse_sig_args(args, kwargs, &stream->metadata(), &sig_args)
-        < 0) { return nullptr; }
+    int parsed = -1;
+    auto success = python::with_caught_exceptions([&]() {
+        parsed = parse_sig_args(args, kwargs, &stream->metadata(), &sig_args);
+    });
+    if (!success || parsed < 0) { return nullptr; }
 
     py::object result;
 
-    auto success = python::with_caught_exceptions([&]() {
+    success = python::with_caught_exceptions([&]() {
         if (!sig_args.interval) { sig_args.interval = stream->domain(); }
         if (!sig_args.resolution) {
             sig_args.resolution = stream->metadata().default_resolution;
@@ -282,7 +298,9 @@ static PyObject* stvs_from_values(PyObject* cls,
                                   PyObject* kwargs)
 {
     using algebra::Lie;
-    auto py_kwargs = py::reinterpret_borrow<py::kwargs>(kwargs);
+    auto py_kwargs = kwargs != nullptr
+            ? py::reinterpret_borrow<py::kwargs>(kwargs)
+            : py::kwargs();
 
     py::object value_list;
 
@@ -321,7 +339,14 @@ static PyObject* stvs_from_values(PyObject* cls,
         algebra::context_pointer ctx;
 
         auto path_md = python::kwargs_to_metadata(py_kwargs);
-        if (path_md.ctx) { ctx = path_md.ctx; }
+        if (path_md.ctx) {
+            ctx = path_md.ctx;
+        } else if (path_md.width != 0 && path_md.depth != 0
+                   && path_md.scalar_type != nullptr) {
+            ctx = algebra::get_context(path_md.width,
+                                       path_md.depth,
+                                       path_md.scalar_type);
+        }
 
         /*
          * To construct the initial data, we need to traverse the sequence of
@@ -331,14 +356,16 @@ static PyObject* stvs_from_values(PyObject* cls,
          * data vector. This will be sorted later.
          */
         for (Py_ssize_t i = 0; i < size; ++i) {
-            py::handle py_item(PySequence_ITEM(value_list.ptr(), i));
+            auto py_item = py::reinterpret_steal<py::object>(
+                PySequence_ITEM(value_list.ptr(), i));
+            if (!py_item) { throw py::error_already_set(); }
 
             if (!py::isinstance<py::tuple>(py_item) || py::len(py_item) != 2) {
                 throw py::type_error("expected a tuple of length 2");
             }
 
-            py::handle py_param(PySequence_ITEM(py_item.ptr(), 0));
-            py::handle py_data(PySequence_ITEM(py_item.ptr(), 1));
+            py::handle py_param(PyTuple_GetItem(py_item.ptr(), 0));
+            py::handle py_data(PyTuple_GetItem(py_item.ptr(), 1));
 
             auto param = py::cast<param_t>(py_param);
 
@@ -365,10 +392,13 @@ static PyObject* stvs_from_values(PyObject* cls,
                     "expected a group-like free tensor or Lie data");
             }
         }
+        if (path_md.width == 0) { path_md.width = ctx->width(); }
         RPY_CHECK_EQ(path_md.width, ctx->width(), py::value_error);
+        path_md.ctx = ctx;
+        path_md.scalar_type = ctx->ctype();
 
         // There is no reason to expect the values are provided in order.
-        std::sort(data.begin(),
+        std::stable_sort(data.begin(),
                   data.end(),
                   [](const auto& a, const auto& b) {
                       return a.first < b.first;
@@ -392,7 +422,9 @@ static PyObject* stvs_from_values(PyObject* cls,
         FreeTensor previous = initial_value;
         for (Py_ssize_t i = 1; i < size; ++i) {
             param_t param_diff = data[i].first - data[i - 1].first;
-            if (param_diff < min_difference) { min_difference = param_diff; }
+            if (param_diff > 0 && param_diff < min_difference) {
+                min_difference = param_diff;
+            }
 
             auto increment = previous.antipode().mul(data[i].second);
             increment_data.emplace_back(data[i].first, ctx->tensor_to_lie(increment.log()));
@@ -497,7 +529,7 @@ PyTypeObject python::TensorValuedStream_Type = {
         "roughpy.TensorValuedStream",// tp_name
         sizeof(RPySimpleTensorValuedStream),// tp_basicsize
         0,// tp_itemsize
-        nullptr,// tp_dealloc
+        stvs_dealloc,// tp_dealloc
         0,// tp_vectorcall_offset
         0,// tp_getattr
         0,// tp_setattr
@@ -512,7 +544,7 @@ PyTypeObject python::TensorValuedStream_Type = {
         0,// tp_getattro
         0,// tp_setattro
         0,// tp_as_buffer
-        Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE | Py_TPFLAGS_HAVE_FINALIZE,
+        Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE,
         // tp_flags
         "A Simple Tensor Valued stream",// tp_doc
         0,// tp_traverse
@@ -541,7 +573,7 @@ PyTypeObject python::TensorValuedStream_Type = {
         0,// tp_weaklist
         0,// tp_del
         0,// tp_version_tag
-        stvs_finalize// tp_finalize
+        nullptr// tp_finalize
 };
 
 void python::init_tensor_valued_stream(py::module_& m)
-- 
2.43.0


From d5e249eed0fec49e5b0e12556ae57823dbabd6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:51 +0000
Subject: [PATCH 42/99] fix: empty intervals intersect nothing; deeper queries
 of cached streams see the data on the grid

---
 intervals/src/interval.cpp           | 3 +++
 streams/src/dyadic_caching_layer.cpp | 5 -----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/intervals/src/interval.cpp b/intervals/src/interval.cpp
index fcff624..dfb802b 100644
--- a/intervals/src/interval.cpp
+++ b/intervals/src/interval.cpp
@@ -84,6 +84,9 @@ bool Interval::intersects_with(const Interval& arg) const noexcept
     auto rhs_inf = arg.inf();
     auto rhs_sup = arg.sup();
 
+    // A half-open interval of length zero has no points.
+    if (lhs_inf == lhs_sup || rhs_inf == rhs_sup) { return false; }
+
     if ((lhs_inf <= rhs_inf && lhs_sup > rhs_inf)
         || (rhs_inf <= lhs_inf && rhs_sup > lhs_inf)) {
         // [l--[r---l)--r) || [r--[l--r)--l)
diff --git a/streams/src/dyadic_caching_layer.cpp b/streams/src/dyadic_caching_layer.cpp
index d08d15d..0d3a0ca 100644
--- a/streams/src/dyadic_caching_layer.cpp
+++ b/streams/src/dyadic_caching_layer.cpp
@@ -141,13 +141,8 @@ DyadicCachingLayer::log_signature(const intervals::Interval& domain,
                                   resolution_t resolution,
                                   const algebra::Context& ctx) const
 {
-    // For now, if the ctx depth is not the same as md depth just do the
-    // calculation without caching be smarter about this in the future.
     const auto& md = DyadicCachingLayer::metadata();
     RPY_CHECK(ctx.width() == md.width);
-    if (ctx.depth() != md.default_context->depth()) {
-        return StreamInterface::log_signature(domain, resolution, ctx);
-    }
 
     auto dyadic_dissection = intervals::to_dyadic_intervals(domain, resolution);
 
-- 
2.43.0


From 09acef770f759dd592ecae97c4664a34c487803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:22 +0000
Subject: [PATCH 43/99] fix: signature_derivative of a stream whose storage
 differs from the perturbation's crashed

---
 algebra/src/lite_context.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algebra/src/lite_context.h b/algebra/src/lite_context.h
index bc27e0a..c1da396 100644
--- a/algebra/src/lite_context.h
+++ b/algebra/src/lite_context.h
@@ -494,10 +494,10 @@ template <VectorType VType>
 typename LiteContext<Coefficients>::template free_tensor_t<VType>
 LiteContext<Coefficients>::lie_to_tensor_impl(const Lie& arg) const
 {
-    // If arg is an object from this context, then we can just use the maps
-    // directly
+    // If arg is an object from this context with the right storage, then we can
+    // just use the maps directly
     const auto& arg_context = arg->context();
-    if (arg_context == this) {
+    if (arg_context == this && arg.storage_type() == VType) {
         return m_maps.lie_to_tensor(algebra_cast<lie_t<VType>>(*arg));
     }
 
@@ -517,7 +517,7 @@ LiteContext<Coefficients>::tensor_to_lie_impl(const FreeTensor& arg) const
 {
 
     const auto& arg_context = arg->context();
-    if (arg_context == this) {
+    if (arg_context == this && arg.storage_type() == VType) {
         return m_maps.tensor_to_lie(algebra_cast<free_tensor_t<VType>>(*arg));
     }
 
-- 
2.43.0


From 749bb594498a8eedc27bd4568721b8681ea6a3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:23 +0000
Subject: [PATCH 44/99] fix: pickling of sparse, empty, rational and polynomial
 elements, and of polynomials

---
 .../roughpy/algebra/algebra_base_impl.h       | 22 +++++++++++++-----
 roughpy/src/scalars/r_py_polynomial.cpp       |  4 ++--
 .../roughpy/scalars/scalar_serialization.h    |  2 ++
 scalars/src/scalar/raw_bytes.cpp              | 23 ++++++++++---------
 scalars/src/scalar_array.cpp                  | 13 +++++++++--
 5 files changed, 43 insertions(+), 21 deletions(-)

diff --git a/algebra/include/roughpy/algebra/algebra_base_impl.h b/algebra/include/roughpy/algebra/algebra_base_impl.h
index 54f400e..cf7fff1 100644
--- a/algebra/include/roughpy/algebra/algebra_base_impl.h
+++ b/algebra/include/roughpy/algebra/algebra_base_impl.h
@@ -799,18 +799,28 @@ void AlgebraBase<Interface, Derived>::load(
                 dtl::construct_dense_algebra(std::move(tmp), ctx, atype)
         );
     } else {
-        p_impl = dtl::downcast_interface_ptr<Interface>(
-                dtl::try_create_new_empty(ctx, atype)
-        );
-
         serial::size_type size;
         RPY_SERIAL_SERIALIZE_SIZE(size);
 
+        VectorConstructionData data{
+                scalars::KeyScalarArray(ctx->ctype()),
+                vtype
+        };
+        if (size > 0) {
+            data.data.allocate_scalars(static_cast<idimn_t>(size));
+            data.data.allocate_keys();
+        }
+
         for (serial::size_type i = 0; i < size; ++i) {
-            std::pair<typename Interface::key_type, scalars::Scalar> val;
+            std::pair<key_type, scalars::Scalar> val;
             RPY_SERIAL_SERIALIZE_BARE(val);
-            p_impl->get_mut(val.first) = val.second;
+            data.data.keys()[i] = val.first;
+            data.data[i] = val.second;
         }
+
+        p_impl = dtl::downcast_interface_ptr<Interface>(
+                ctx->construct(atype, data)
+        );
     }
 }
 
diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index b9f1be2..c076cad 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -346,7 +346,7 @@ polynomial___getstate__(PyObject* self, PyObject* RPY_UNUSED_VAR)
     std::stringstream ss;
     {
         archives::PortableBinaryOutputArchive oa(ss);
-        oa(cast_mon(self));
+        oa(cast_poly(self));
     }
 
     string data(std::move(ss).str());
@@ -367,7 +367,7 @@ static PyObject* polynomial___setstate__(PyObject* self, PyObject* args)
     {
         std::istringstream ss(sdata);
         archives::PortableBinaryInputArchive ia(ss);
-        ia(cast_mon(self));
+        ia(cast_poly(self));
     }
 
     Py_RETURN_NONE;
diff --git a/scalars/include/roughpy/scalars/scalar_serialization.h b/scalars/include/roughpy/scalars/scalar_serialization.h
index a499374..caf0ed1 100644
--- a/scalars/include/roughpy/scalars/scalar_serialization.h
+++ b/scalars/include/roughpy/scalars/scalar_serialization.h
@@ -312,6 +312,7 @@ RPY_SERIAL_EXT_LIB_LOAD_FN(::rpy::scalars::monomial)
     cereal::size_type count;
     RPY_SERIAL_SERIALIZE_SIZE(static_cast<cereal::size_type&>(count));
 
+    value = monomial();
     //    pair<indeterminate_type, deg_t> entry(indeterminate_type(0, 0), 0);
     indeterminate_type id(0, 0);
     deg_t degree;
@@ -335,6 +336,7 @@ RPY_SERIAL_EXT_LIB_LOAD_FN(::rpy::scalars::rational_poly_scalar)
     monomial m;
     rational_scalar_type s;
 
+    value = rational_poly_scalar();
     for (size_t i = 0; i < count; ++i) {
         RPY_SERIAL_SERIALIZE_BARE(m);
         rpy::scalars::dtl::load_rational(archive, s);
diff --git a/scalars/src/scalar/raw_bytes.cpp b/scalars/src/scalar/raw_bytes.cpp
index 99a082d..5cd6543 100644
--- a/scalars/src/scalar/raw_bytes.cpp
+++ b/scalars/src/scalar/raw_bytes.cpp
@@ -44,9 +44,9 @@ void to_raw_bytes_impl_helper(std::vector<byte>& out,
     auto it = out.begin() + curr_size;
     *it = (helper.is_negative()) ? 1 : 0;
     ++it;
-    uint64_t limbs_size = helper.size();
+    uint64_t limbs_size = helper.nbytes();
     it = std::copy_n(reinterpret_cast<const byte*>(&limbs_size),
-                     sizeof(uint8_t),
+                     sizeof(uint64_t),
                      it);
     std::copy_n(reinterpret_cast<const byte*>(helper.limbs()), limbs_size, it);
 }
@@ -58,7 +58,7 @@ void to_raw_bytes_impl(std::vector<byte>& out,
 {
     out.reserve(out.size() + count * sizeof(rational_scalar_type));
     for (dimn_t i = 0; i < count; ++i) {
-        const auto& backend = data->backend();
+        const auto& backend = data[i].backend();
 #if RPY_USING_GMP
         using helper_t = scalars::dtl::MPIntegerSerializationHelper<
             remove_pointer_t
@@ -162,15 +162,15 @@ dimn_t from_raw_bytes_impl(
 {
     auto advance = 1 + sizeof(uint64_t);
     const auto* src = bytes.data();
-    RPY_CHECK(bytes.size() > advance);
+    RPY_CHECK(bytes.size() >= advance);
 
     auto is_negative = static_cast<bool>(*(src++));
     uint64_t nbytes_large = 0;
     std::memcpy(&nbytes_large, src, sizeof(uint64_t));
     src += sizeof(uint64_t);
     auto nbytes = static_cast<dimn_t>(nbytes_large);
+    RPY_CHECK(bytes.size() - advance >= nbytes);
     advance += nbytes;
-    RPY_CHECK(bytes.size() > advance);
 
     dimn_t n_limbs = 0;
     if (nbytes > 0) {
@@ -211,6 +211,7 @@ void from_raw_bytes_impl(rational_scalar_type* dst,
         auto advance = from_raw_bytes_impl(num_helper, {src, remaining});
         src += advance;
         remaining -= advance;
+        offset += advance;
         advance = from_raw_bytes_impl(den_helper, {src, remaining});
         src += advance;
         remaining -= advance;
@@ -242,12 +243,12 @@ dimn_t from_raw_bytes_impl(monomial& value, Slice<const byte> bytes)
 {
     constexpr auto sizeof_idep = sizeof(typename indeterminate_type::packed_type) + sizeof(typename indeterminate_type::integral_type);
     constexpr auto sizeof_term = sizeof_idep + sizeof(lal::deg_t);
-    RPY_CHECK(bytes.size() > sizeof(uint64_t));
+    RPY_CHECK(bytes.size() >= sizeof(uint64_t));
     uint64_t size_large = 0;
     from_raw_bytes_impl(&size_large, 1, bytes);
     auto size = static_cast<dimn_t>(size_large);
 
-    RPY_CHECK(bytes.size() > size_large*sizeof_term + sizeof(uint64_t));
+    RPY_CHECK((bytes.size() - sizeof(uint64_t)) / sizeof_term >= size_large);
     const auto* src = bytes.data() + sizeof(uint64_t);
 
     indeterminate_type tmp_idep(0, 0);
@@ -259,7 +260,7 @@ dimn_t from_raw_bytes_impl(monomial& value, Slice<const byte> bytes)
         src += sizeof_term;
     }
 
-    return size + sizeof(uint64_t);
+    return size * sizeof_term + sizeof(uint64_t);
 }
 
 dimn_t from_raw_bytes_impl_single(rational_poly_scalar& value, Slice<const byte> bytes)
@@ -269,9 +270,6 @@ dimn_t from_raw_bytes_impl_single(rational_poly_scalar& value, Slice<const byte>
     from_raw_bytes_impl(&count_large, 1, bytes);
     dimn_t final_offset = sizeof(uint64_t);
 
-    monomial tmp_key;
-    rational_scalar_type tmp_value;
-
     const auto* src = bytes.data() + sizeof(uint64_t);
     auto count = static_cast<dimn_t>(count_large);
     dimn_t advance = 0;
@@ -279,6 +277,9 @@ dimn_t from_raw_bytes_impl_single(rational_poly_scalar& value, Slice<const byte>
     dimn_t remaining = bytes.size() - sizeof(uint64_t);
 
     for (dimn_t i=0; i<count; ++i) {
+        monomial tmp_key;
+        rational_scalar_type tmp_value;
+
         advance = from_raw_bytes_impl(tmp_key, {src, remaining});
         from_raw_bytes_impl(&tmp_value, 1, {src + advance, remaining-advance}, &offset);
         advance += offset;
diff --git a/scalars/src/scalar_array.cpp b/scalars/src/scalar_array.cpp
index 737225b..17a251b 100644
--- a/scalars/src/scalar_array.cpp
+++ b/scalars/src/scalar_array.cpp
@@ -481,13 +481,22 @@ void ScalarArray::from_raw_bytes(
 {
     RPY_CHECK(is_null());
     auto tp_o = scalar_type_of(info);
+    if (count == 0) {
+        // There is nothing to allocate or to read
+        *this = tp_o ? ScalarArray(*tp_o) : ScalarArray(info);
+        return;
+    }
+
     if (tp_o) {
         *this = (*tp_o)->allocate(count);
     } else {
         p_type_and_mode
                 = type_pointer(info, dtl::ScalarArrayStorageModel::Owned);
-        owned_buffer
-                = devices::get_host_device()->raw_alloc(count, info.alignment);
+        owned_buffer = devices::get_host_device()->raw_alloc(
+                count * info.bytes,
+                info.alignment
+        );
+        m_size = count;
     }
 
     dtl::from_raw_bytes(owned_buffer.ptr(), count, bytes, info);
-- 
2.43.0


From 27789ac8e6a5ba295ae7272ef0288ad5aede3959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:56 +0000
Subject: [PATCH 45/99] fix: pickled streams shared one cache file; Brownian
 streams, sparse Lie elements and polynomials did not unpickle

---
 algebra/include/roughpy/algebra/algebra_base_impl.h    | 3 ++-
 roughpy/src/scalars/r_py_polynomial.cpp                | 5 +++--
 streams/include/roughpy/streams/brownian_stream.h      | 3 ++-
 streams/include/roughpy/streams/dyadic_caching_layer.h | 5 ++++-
 streams/src/dyadic_caching_layer.cpp                   | 5 +++--
 5 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/algebra/include/roughpy/algebra/algebra_base_impl.h b/algebra/include/roughpy/algebra/algebra_base_impl.h
index cf7fff1..e2eea34 100644
--- a/algebra/include/roughpy/algebra/algebra_base_impl.h
+++ b/algebra/include/roughpy/algebra/algebra_base_impl.h
@@ -811,10 +811,11 @@ void AlgebraBase<Interface, Derived>::load(
             data.data.allocate_keys();
         }
 
+        const auto basis = basis_setup_helper<algebra_t>::get(ctx);
         for (serial::size_type i = 0; i < size; ++i) {
             std::pair<key_type, scalars::Scalar> val;
             RPY_SERIAL_SERIALIZE_BARE(val);
-            data.data.keys()[i] = val.first;
+            data.data.keys()[i] = basis.key_to_index(val.first);
             data.data[i] = val.second;
         }
 
diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index c076cad..02140d1 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -431,7 +431,7 @@ static PyNumberMethods RPyPolynomial_number{
 
 PyTypeObject RPyPolynomial_Type = {
         PyVarObject_HEAD_INIT(nullptr, 0)      //
-        "roughpy.Polynomial",                  /* tp_name */
+        "roughpy.PolynomialScalar",            /* tp_name */
         sizeof(RPyPolynomial),                 /* tp_basicsize */
         0,                                     /* tp_itemsize */
         nullptr,                               /* tp_dealloc */
@@ -1226,7 +1226,8 @@ PyObject* polynomial_new(PyTypeObject* type, PyObject* args, PyObject* kwargs)
         Py_DECREF(py_scalar);
 
         if (scal != 0) { result = poly_t(mon, scal); }
-    } else {
+    } else if (nargs != 0) {
+        // No arguments makes zero, the state of a copy before it is set.
         PyErr_SetString(PyExc_ValueError, "execpted one or 2 arguments");
         return nullptr;
     }
diff --git a/streams/include/roughpy/streams/brownian_stream.h b/streams/include/roughpy/streams/brownian_stream.h
index 3e306b4..9e05ea9 100644
--- a/streams/include/roughpy/streams/brownian_stream.h
+++ b/streams/include/roughpy/streams/brownian_stream.h
@@ -91,9 +91,10 @@ RPY_SERIAL_SAVE_FN_IMPL(BrownianStream)
     RPY_SERIAL_SERIALIZE_BASE(DynamicallyConstructedStream);
 //    auto md = metadata();
 //    RPY_SERIAL_SERIALIZE_NVP("metadata", md);
+    // The order has to be the order of reading for the binary archives.
     std::string generator = p_generator->get_type();
-    RPY_SERIAL_SERIALIZE_NVP("seed", p_generator->get_seed());
     RPY_SERIAL_SERIALIZE_NVP("generator", generator);
+    RPY_SERIAL_SERIALIZE_NVP("seed", p_generator->get_seed());
     auto state = p_generator->get_state();
     RPY_SERIAL_SERIALIZE_NVP("state", state);
 
diff --git a/streams/include/roughpy/streams/dyadic_caching_layer.h b/streams/include/roughpy/streams/dyadic_caching_layer.h
index 7b4ba6a..26d3287 100644
--- a/streams/include/roughpy/streams/dyadic_caching_layer.h
+++ b/streams/include/roughpy/streams/dyadic_caching_layer.h
@@ -37,6 +37,7 @@
 
 #include <boost/interprocess/sync/file_lock.hpp>
 #include <boost/uuid/uuid.hpp>
+#include <boost/uuid/uuid_generators.hpp>
 
 #include "stream_base.h"
 
@@ -63,7 +64,9 @@ class ROUGHPY_STREAMS_EXPORT DyadicCachingLayer : public StreamInterface
     mutable std::map<intervals::DyadicInterval, algebra::Lie> m_cache;
     mutable std::recursive_mutex m_compute_lock;
 
-    uuids::uuid m_cache_id;
+    // Names the file that holds the cache of a serialized stream, so it has to
+    // be different for every stream, whichever constructor made it.
+    uuids::uuid m_cache_id = uuids::random_generator()();
 
 public:
     using StreamInterface::StreamInterface;
diff --git a/streams/src/dyadic_caching_layer.cpp b/streams/src/dyadic_caching_layer.cpp
index 0d3a0ca..51e0214 100644
--- a/streams/src/dyadic_caching_layer.cpp
+++ b/streams/src/dyadic_caching_layer.cpp
@@ -55,8 +55,7 @@ using namespace rpy;
 using namespace rpy::streams;
 
 DyadicCachingLayer::DyadicCachingLayer()
-    : StreamInterface(), m_cache(), m_compute_lock(),
-          m_cache_id(uuids::random_generator()())
+    : StreamInterface(), m_cache(), m_compute_lock()
 {
 //    auto path = get_config().stream_cache_dir() / to_string(m_cache_id);
 //    {
@@ -71,6 +70,7 @@ DyadicCachingLayer::DyadicCachingLayer(DyadicCachingLayer&& other) noexcept
 {
     std::lock_guard<std::recursive_mutex> access(other.m_compute_lock);
     m_cache = std::move(other.m_cache);
+    m_cache_id = other.m_cache_id;
 }
 DyadicCachingLayer&
 DyadicCachingLayer::operator=(DyadicCachingLayer&& other) noexcept
@@ -79,6 +79,7 @@ DyadicCachingLayer::operator=(DyadicCachingLayer&& other) noexcept
         std::lock_guard<std::recursive_mutex> this_access(m_compute_lock);
         std::lock_guard<std::recursive_mutex> that_access(other.m_compute_lock);
         m_cache = std::move(other.m_cache);
+        m_cache_id = other.m_cache_id;
         StreamInterface::operator=(std::move(other));
     }
     return *this;
-- 
2.43.0


From d0a64cde6836466ea59285062b580cac43e920fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:40 +0000
Subject: [PATCH 46/99] fix: rp.segment always raised in Python, and returned
 segments reaching outside the interval

---
 intervals/src/dyadic_searcher.cpp      |  9 ++++++++-
 roughpy/src/intervals/segmentation.cpp | 16 ++++++++++++++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/intervals/src/dyadic_searcher.cpp b/intervals/src/dyadic_searcher.cpp
index 6eedd29..a2fea10 100644
--- a/intervals/src/dyadic_searcher.cpp
+++ b/intervals/src/dyadic_searcher.cpp
@@ -45,7 +45,7 @@ void DyadicSearcher::expand_left(ScaledPredicate& predicate,
     bool is_aligned = di.aligned();
     --di;// moving to the left
 
-    if (is_aligned) {
+    if (is_aligned && di.multiplier() >= 0) {
         // It's possible that the interval contains two dyadics of starting
         // length if and only if the left hand is not aligned and the right
         // hand is aligned.
@@ -54,6 +54,10 @@ void DyadicSearcher::expand_left(ScaledPredicate& predicate,
             --di;
         }
     }
+
+    // The search must not leave the unit interval.
+    if (di.multiplier() < 0) { return; }
+
     /*
      * At this stage, we should be in the situation where predicate(di) is
      * false. So we should split the interval in half, and check the right hand
@@ -90,6 +94,9 @@ void DyadicSearcher::expand_right(ScaledPredicate& predicate,
      */
     ++di;// moving to the right.
 
+    // The search must not leave the unit interval.
+    if (di.multiplier() >= (Dyadic::multiplier_t(1) << di.power())) { return; }
+
     while (di.power() < m_max_depth) {
         DyadicInterval right(di);
         right.shrink_interval_right();
diff --git a/roughpy/src/intervals/segmentation.cpp b/roughpy/src/intervals/segmentation.cpp
index bc03817..3dea4e7 100644
--- a/roughpy/src/intervals/segmentation.cpp
+++ b/roughpy/src/intervals/segmentation.cpp
@@ -41,6 +41,18 @@ static const char* SEGMENT_DOC
 void python::init_segmentation(py::module_& m)
 {
 
-    m.def("segment", &segment, "interval"_a, "predicate"_a, "max_depth"_a,
-          SEGMENT_DOC);
+    // Interval is abstract, so the argument of the predicate has to be given to
+    // Python as a concrete interval.
+    m.def("segment",
+          [](const Interval& interval, const py::function& predicate,
+             dyadic_depth_t max_depth) {
+              return segment(
+                      interval,
+                      [&predicate](const Interval& arg) {
+                          return predicate(RealInterval(arg)).cast<bool>();
+                      },
+                      max_depth
+              );
+          },
+          "interval"_a, "predicate"_a, "max_depth"_a, SEGMENT_DOC);
 }
-- 
2.43.0


From cd193a63738f2088dccc29b02b1f7f6bc3495f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:33 +0000
Subject: [PATCH 47/99] fix: dyadic decomposition of intervals closed on the
 right never ended

---
 intervals/src/dyadic_interval.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/intervals/src/dyadic_interval.cpp b/intervals/src/dyadic_interval.cpp
index 741a270..93355eb 100644
--- a/intervals/src/dyadic_interval.cpp
+++ b/intervals/src/dyadic_interval.cpp
@@ -130,7 +130,7 @@ DyadicInterval& DyadicInterval::shrink_interval_left(Dyadic::power_t arg)
 }
 DyadicInterval& DyadicInterval::expand_interval(Dyadic::power_t arg)
 {
-    *this = DyadicInterval{dincluded_end(), m_power - arg};
+    *this = DyadicInterval{dincluded_end(), m_power - arg, m_interval_type};
     return *this;
 }
 bool DyadicInterval::contains_dyadic(const DyadicInterval& other) const
@@ -153,7 +153,8 @@ bool DyadicInterval::aligned() const
     DyadicInterval parent{static_cast<const Dyadic&>(*this), m_power - 1,
                           m_interval_type};
     return operator==(
-            DyadicInterval{static_cast<const Dyadic&>(parent), m_power});
+            DyadicInterval{static_cast<const Dyadic&>(parent), m_power,
+                           m_interval_type});
 }
 DyadicInterval& DyadicInterval::flip_interval()
 {
-- 
2.43.0


From 1414b0a4535b6077ac90f9280723b7b4e2510e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:15 +0000
Subject: [PATCH 48/99] fix: partitions compared equal whenever their ends did;
 assigning a partition did nothing

---
 intervals/include/roughpy/intervals/partition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intervals/include/roughpy/intervals/partition.h b/intervals/include/roughpy/intervals/partition.h
index d0678ad..fb6b07a 100644
--- a/intervals/include/roughpy/intervals/partition.h
+++ b/intervals/include/roughpy/intervals/partition.h
@@ -84,7 +84,7 @@ public:
 
 
     RPY_NO_DISCARD
-    bool operator=(const Partition& other) const noexcept {
+    bool operator==(const Partition& other) const noexcept {
         if (static_cast<const RealInterval&>(*this) != other) {
             return false;
         }
-- 
2.43.0


From caee6bae0fe0bfbdacd76d8b3f0172dceb61d6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:39 +0000
Subject: [PATCH 49/99] fix: simplify lost the parts of the partition outside
 the default support of the stream

---
 streams/src/stream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/streams/src/stream.cpp b/streams/src/stream.cpp
index c58eaac..ab9905d 100644
--- a/streams/src/stream.cpp
+++ b/streams/src/stream.cpp
@@ -249,6 +249,7 @@ Stream Stream::simplify(
     StreamMetadata new_md(metadata());
     new_md.default_resolution = resolution;
     new_md.default_context = &ctx;
+    new_md.effective_support = RealInterval(partition);
 
     return Stream(PiecewiseAbelianStream(
             std::move(pieces),
-- 
2.43.0


From e5ec3a9d55005c108221a7b8400de5eaa0470ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:58 +0000
Subject: [PATCH 50/99] fix: the negative of a zero scalar had no type and
 crashed when used

---
 scalars/src/scalar/arithmetic.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index d19bc63..658a2be 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -106,6 +106,9 @@ Scalar Scalar::operator-() const
                 );
                 break;
         }
+    } else {
+        // The negative of zero is a zero of the same type
+        return *this;
     }
     return result;
 }
-- 
2.43.0


From 190ca942f9febd70c0cd505ea89721b67a303c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:14 +0000
Subject: [PATCH 51/99] fix: arithmetic with a zero scalar did not promote the
 type of the result

---
 scalars/src/scalar/arithmetic.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index 658a2be..afa6460 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -212,11 +212,30 @@ inline void scalar_inplace_arithmetic(Scalar& dst, const Scalar& src, Op&& op)
 
 }// namespace
 
+/*
+ * The type of the result of an operation is determined by the types of the
+ * operands, not their values: this is used where there is a zero and there is
+ * no arithmetic to do.
+ */
+static inline void promote_to_common_type(Scalar& dst, const Scalar& src)
+{
+    if (dst.packed_type_info().is_null() || src.packed_type_info().is_null()) {
+        return;
+    }
+    const auto out_type = scalars::dtl::compute_dest_type(
+            dst.packed_type_info(),
+            src.packed_type_info()
+    );
+    if (out_type != dst.type_info()) { dst.change_type(out_type); }
+}
+
 Scalar& Scalar::operator+=(const Scalar& other)
 {
     RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
     if (!other.fast_is_zero()) {
         scalar_inplace_arithmetic(*this, other, AddInplace());
+    } else {
+        promote_to_common_type(*this, other);
     }
     return *this;
 }
@@ -226,6 +245,8 @@ Scalar& Scalar::operator-=(const Scalar& other)
     RPY_DBG_ASSERT(!p_type_and_content_type.is_null());
     if (!other.fast_is_zero()) {
         scalar_inplace_arithmetic(*this, other, SubInplace());
+    } else {
+        promote_to_common_type(*this, other);
     }
     return *this;
 }
@@ -236,6 +257,7 @@ Scalar& Scalar::operator*=(const Scalar& other)
     if (!fast_is_zero() && !other.fast_is_zero()) {
         scalar_inplace_arithmetic(*this, other, MulInplace());
     } else {
+        promote_to_common_type(*this, other);
         operator=(0);
     }
 
-- 
2.43.0


From 6b8150cdd00566bd3d2cefb09a9369c476547662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:14 +0000
Subject: [PATCH 52/99] fix: a polynomial scalar could not be divided by a
 number

---
 scalars/src/scalar/arithmetic.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index afa6460..e1c15c9 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -323,7 +323,12 @@ Scalar& Scalar::operator/=(const Scalar& other)
      */
     const auto num_info = type_info_from(p_type_and_content_type);
     const auto true_denom_info = type_info_from(other.p_type_and_content_type);
-    const auto rat_denom_info = traits::rational_type_of(true_denom_info);
+    auto rat_denom_info = traits::rational_type_of(true_denom_info);
+    if (num_info.code == devices::TypeCode::APRationalPolynomial
+        && true_denom_info.code != devices::TypeCode::APRationalPolynomial) {
+        // Polynomials can only be divided by rational numbers
+        rat_denom_info = devices::type_info<rational_scalar_type>();
+    }
 
     // Set up the actual denominator that we will divide by
     Scalar rational_denom(true_denom_info, other.pointer());
-- 
2.43.0


From 5661c6079d05fc77ad09567746054fba3c8207d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:00 +0000
Subject: [PATCH 53/99] fix: infinite and not-a-number values converted to
 rational scalars crashed the process

---
 scalars/include/roughpy/scalars/scalar.h |  8 +++++++-
 scalars/src/scalar.cpp                   | 16 +++++++++-------
 scalars/src/scalar/arithmetic.cpp        | 10 +++++++++-
 scalars/src/scalar/casts.cpp             | 14 ++++++++++++--
 4 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/scalars/include/roughpy/scalars/scalar.h b/scalars/include/roughpy/scalars/scalar.h
index ec15161..f948ddc 100644
--- a/scalars/include/roughpy/scalars/scalar.h
+++ b/scalars/include/roughpy/scalars/scalar.h
@@ -483,7 +483,13 @@ public:
     void change_type(devices::TypeInfo new_type_info)
     {
         Scalar tmp(new_type_info);
-        dtl::scalar_convert_copy(tmp.mut_pointer(), new_type_info, *this);
+        if (!dtl::scalar_convert_copy(
+                    tmp.mut_pointer(),
+                    new_type_info,
+                    *this
+            )) {
+            throw ScalarConversionException(new_type_info, type_info());
+        }
         this->~Scalar();
         construct_inplace(this, std::move(tmp));
     }
diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index 435a197..2f2497a 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -153,7 +153,7 @@ void Scalar::copy_from_opaque_pointer(devices::TypeInfo info, const void* src)
         } else {
             auto successful =
                 dtl::scalar_convert_copy(trivial_bytes, dst_info, src, info);
-            RPY_DBG_ASSERT(successful);
+            if (!successful) { throw ScalarConversionException(dst_info, info); }
         }
         p_type_and_content_type.update_enumeration(
             dtl::ScalarContentType::TrivialBytes
@@ -162,7 +162,7 @@ void Scalar::copy_from_opaque_pointer(devices::TypeInfo info, const void* src)
         allocate_data();
         auto successful
             = dtl::scalar_convert_copy(opaque_pointer, dst_info, src, info);
-        RPY_DBG_ASSERT(successful);
+        if (!successful) { throw ScalarConversionException(dst_info, info); }
     }
 }
 
@@ -297,11 +297,13 @@ Scalar& Scalar::operator=(const Scalar& other)
 //                    );
             }
         } else {
-            dtl::scalar_convert_copy(
-                mut_pointer(),
-                type_info(),
-                other
-            );
+            if (!dtl::scalar_convert_copy(
+                    mut_pointer(),
+                    type_info(),
+                    other
+                )) {
+                throw ScalarConversionException(type_info(), other.type_info());
+            }
         }
     }
     return *this;
diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index e1c15c9..9e66209 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -181,7 +181,15 @@ inline void scalar_inplace_arithmetic(
     } else {
         Scalar tmp(dst_info);
         void* tmp_ptr = tmp.mut_pointer();
-        scalars::dtl::scalar_convert_copy(tmp_ptr, dst_info, src, src_info, 1);
+        if (!scalars::dtl::scalar_convert_copy(
+                    tmp_ptr,
+                    dst_info,
+                    src,
+                    src_info,
+                    1
+            )) {
+            throw ScalarConversionException(dst_info, src_info);
+        }
         do_op(dst, tmp_ptr, dst_info, std::forward<Op>(op));
     }
 }
diff --git a/scalars/src/scalar/casts.cpp b/scalars/src/scalar/casts.cpp
index 1fd731b..d78d1f2 100644
--- a/scalars/src/scalar/casts.cpp
+++ b/scalars/src/scalar/casts.cpp
@@ -34,6 +34,8 @@
 #include <roughpy/core/construct_inplace.hpp>
 #include <roughpy/scalars/scalar_types.h>
 
+#include <cmath>
+
 using namespace rpy;
 using namespace scalars;
 using devices::TypeInfo;
@@ -53,19 +55,27 @@ write_result(D* dst, const T* src, dimn_t count) noexcept
 template <typename D, typename T>
 static inline void assign_result(D& result, const T& arg)
 {
+    if constexpr (is_floating_point_v<T>
+                  && (is_same_v<D, rational_scalar_type>
+                      || is_same_v<D, rational_poly_scalar>)) {
+        // There are no infinite or not-a-number rationals
+        if (!std::isfinite(arg)) {
+            RPY_THROW(std::domain_error, "value is not a rational number");
+        }
+    }
     result = static_cast<D>(arg);
 }
 
 template <typename D>
 static inline void assign_result(D& result, const half& arg)
 {
-    result = static_cast<D>(static_cast<float>(arg));
+    assign_result(result, static_cast<float>(arg));
 }
 
 template <typename D>
 static inline void assign_result(D& result, const bfloat16& arg)
 {
-    result = static_cast<D>(static_cast<float>(arg));
+    assign_result(result, static_cast<float>(arg));
 }
 
 template <typename D, typename T>
-- 
2.43.0


From 6d42f01f1eff8450377921ae27f7151c3e9200d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:45 +0000
Subject: [PATCH 54/99] fix: negative zero was not zero in the comparison of
 scalars

---
 scalars/src/scalar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index 2f2497a..e6f1b4f 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -329,7 +329,7 @@ bool Scalar::is_zero() const noexcept
     switch (p_type_and_content_type.get_enumeration()) {
         case dtl::ScalarContentType::TrivialBytes:
         case dtl::ScalarContentType::ConstTrivialBytes:
-            return bit_cast<uintptr_t>(trivial_bytes) == 0;
+            return is_pointer_zero(trivial_bytes, p_type_and_content_type);
         case dtl::ScalarContentType::OpaquePointer:
         case dtl::ScalarContentType::ConstOpaquePointer:
         case dtl::ScalarContentType::OwnedPointer:
-- 
2.43.0


From eff0c45e8dfee443cf37251a5036dff8ba3ce18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:45 +0000
Subject: [PATCH 55/99] fix: division of a number by a negative zero scalar was
 not refused

---
 scalars/src/scalar/arithmetic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index 9e66209..88e4ca9 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -317,7 +317,7 @@ do_divide(T* dst, const void* divisor, const devices::TypeInfo& info){
 
 Scalar& Scalar::operator/=(const Scalar& other)
 {
-    if (other.fast_is_zero()) {
+    if (other.is_zero()) {
         RPY_THROW(std::domain_error, "division by zero");
     }
 
-- 
2.43.0


From aded8411b92174301a5aa806388a38eb7d8463b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:17 +0000
Subject: [PATCH 56/99] fix: the type information packed in a scalar lost a bit
 of the type code

---
 scalars/include/roughpy/scalars/packed_scalar_type_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h b/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h
index 7f167fb..cfc8375 100644
--- a/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h
+++ b/scalars/include/roughpy/scalars/packed_scalar_type_ptr.h
@@ -92,7 +92,7 @@ public:
 
     constexpr PackedScalarTypePointer(type_info_t info, enumeration_type ty)
         : m_data((static_cast<integral_type>(bit_cast<uint32_t>(info))
-                  << MaxEnumBits)
+                  << NonPointerBits)
                  | ModeMask | (static_cast<integral_type>(ty) & EnumMask))
     {}
 
@@ -118,7 +118,7 @@ public:
     constexpr type_info_t get_type_info() const noexcept
     {
         return bit_cast<type_info_t>(
-                static_cast<uint32_t>((m_data & TypeInfoMask) >> MaxEnumBits)
+                static_cast<uint32_t>((m_data & TypeInfoMask) >> NonPointerBits)
         );
     }
 
-- 
2.43.0


From 8b0ec5fa69d4b66ef2ee336cb450c89f881b6a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:17 +0000
Subject: [PATCH 57/99] fix: reading a coefficient of a polynomial ended the
 process

---
 scalars/src/scalar.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index e6f1b4f..a96c0fb 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -52,6 +52,8 @@ void Scalar::allocate_data()
         if (!tp_o) {
             RPY_THROW(std::runtime_error, "unable to allocate scalar");
         }
+        p_type_and_content_type
+            = type_pointer(*tp_o, dtl::ScalarContentType::OwnedPointer);
     }
 
     RPY_DBG_ASSERT(p_type_and_content_type.is_pointer());
-- 
2.43.0


From ec79a48c2b0497d71147368b550ab1ece423c749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:17 +0000
Subject: [PATCH 58/99] fix: in-place operations on monomials and polynomials
 lost a reference to the result

---
 roughpy/src/scalars/r_py_polynomial.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index 02140d1..3462aa1 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -768,6 +768,7 @@ PyObject* monomial_inplace_mul(PyObject* self, PyObject* other)
         auto& lhs = cast_mon(self);
         const auto& rhs = cast_mon(other);
         lhs *= rhs;
+        Py_INCREF(self);
         return self;
     }
 
@@ -1362,6 +1363,7 @@ PyObject* polynomial_inplace_mul(PyObject* self, PyObject* other)
         auto& lhs = cast_poly(self);
         const auto& rhs = cast_poly(other);
         lhs *= rhs;
+        Py_INCREF(self);
         return self;
     }
 
@@ -1370,12 +1372,14 @@ PyObject* polynomial_inplace_mul(PyObject* self, PyObject* other)
         if (is_monomial(other)) {
             const auto& mon = cast_mon(other);
             poly *= poly_t(mon, rat_t(1));
+            Py_INCREF(self);
             return self;
         }
 
         rat_t scalar;
         if (py_scalar_to_rat(scalar, other)) {
             poly *= poly_t(scalar);
+            Py_INCREF(self);
             return self;
         }
 
@@ -1550,6 +1554,7 @@ PyObject* polynomial_inplace_add(PyObject* self, PyObject* other)
         auto& lhs = cast_poly(self);
         const auto& rhs = cast_poly(other);
         lhs += rhs;
+        Py_INCREF(self);
         return self;
     }
 
@@ -1558,12 +1563,14 @@ PyObject* polynomial_inplace_add(PyObject* self, PyObject* other)
         if (is_monomial(other)) {
             const auto& mon = cast_mon(other);
             poly += poly_t(mon, rat_t(1));
+            Py_INCREF(self);
             return self;
         }
 
         rat_t scalar;
         if (py_scalar_to_rat(scalar, other)) {
             poly += poly_t(scalar);
+            Py_INCREF(self);
             return self;
         }
 
@@ -1593,6 +1600,7 @@ PyObject* polynomial_inplace_sub(PyObject* self, PyObject* other)
         auto& lhs = cast_poly(self);
         const auto& rhs = cast_poly(other);
         lhs -= rhs;
+        Py_INCREF(self);
         return self;
     }
 
@@ -1601,12 +1609,14 @@ PyObject* polynomial_inplace_sub(PyObject* self, PyObject* other)
         if (is_monomial(other)) {
             const auto& mon = cast_mon(other);
             poly -= poly_t(mon, rat_t(1));
+            Py_INCREF(self);
             return self;
         }
 
         rat_t scalar;
         if (py_scalar_to_rat(scalar, other)) {
             poly -= poly_t(scalar);
+            Py_INCREF(self);
             return self;
         }
 
@@ -1645,6 +1655,7 @@ PyObject* polynomial_inplace_div(PyObject* self, PyObject* other)
         }
 
         cast_poly(self) /= scalar;
+        Py_INCREF(self);
         return self;
     }
 
-- 
2.43.0


From 1ce3a0266d8f550d444f909934d1bd80cb50b487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:17 +0000
Subject: [PATCH 59/99] fix: in-place division of a monomial by a number
 multiplied by the number

---
 roughpy/src/scalars/r_py_polynomial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index 3462aa1..7a3a515 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -1017,7 +1017,7 @@ PyObject* monomial_inplace_div(PyObject* self, PyObject* other)
         }
 
         rat_t divisor = rat_t(1) / scalar;
-        return PyPolynomial_FromPolynomial(poly_t(mon, scalar));
+        return PyPolynomial_FromPolynomial(poly_t(mon, divisor));
     }
 
     // We might want to support other types in the future
-- 
2.43.0


From 0f028af28dff444d3fa961029c384258ce35db0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:17 +0000
Subject: [PATCH 60/99] fix: powers of monomials were not powers, and were
 refused after changing the monomial

---
 roughpy/src/scalars/r_py_polynomial.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index 7a3a515..d182108 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -796,9 +796,12 @@ PyObject* monomial_pow(PyObject* self, PyObject* other, PyObject*)
             return nullptr;
         }
 
-        auto* result = PyMonomial_FromMonomial(lhs);
-        auto& result_mon = cast_mon(result);
-        for (auto& comp : result_mon) { comp.second += power; }
+        scalars::monomial result;
+        if (power > 0) {
+            result = lhs;
+            for (auto& comp : result) { comp.second *= power; }
+        }
+        return PyMonomial_FromMonomial(std::move(result));
     }
 
     Py_RETURN_NOTIMPLEMENTED;
@@ -826,7 +829,13 @@ PyObject* monomial_inplace_pow(PyObject* self, PyObject* other, PyObject*)
             return nullptr;
         }
 
-        for (auto& comp : lhs) { comp.second += power; }
+        if (power == 0) {
+            lhs = scalars::monomial();
+        } else {
+            for (auto& comp : lhs) { comp.second *= power; }
+        }
+        Py_INCREF(self);
+        return self;
     }
 
     Py_RETURN_NOTIMPLEMENTED;
-- 
2.43.0


From e0674ab610bb2e7e10f34c33dff5ca65590739eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:17 +0000
Subject: [PATCH 61/99] fix: no coefficient of a polynomial could be set

---
 roughpy/src/scalars/r_py_polynomial.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index d182108..0b4833d 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -1306,24 +1306,22 @@ int polynomial_ass_subscript(PyObject* self, PyObject* index, PyObject* arg)
         }
 
         monomial = scalars::monomial(indet);
+    } else {
+        PyErr_SetString(
+                PyExc_TypeError,
+                "polynomial index must be monomial or str"
+        );
+        return -1;
     }
 
     rat_t newarg;
-    if (py_scalar_to_rat(newarg, arg)) {
+    if (!py_scalar_to_rat(newarg, arg)) {
         PyErr_SetString(PyExc_ValueError, "could not parse value");
         return -1;
     }
 
-    if (newarg != rat_t(0)) {
-        poly[monomial] = newarg;
-        return 0;
-    }
-
-    PyErr_SetString(
-            PyExc_TypeError,
-            "polynomial index must be monomial or str"
-    );
-    return -1;
+    poly[monomial] = newarg;
+    return 0;
 }
 PyObject* polynomial_mul(PyObject* self, PyObject* other)
 {
-- 
2.43.0


From 90a4886dc2fc1b1f20174d3d25799e35459e0ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:00 +0000
Subject: [PATCH 62/99] fix: monomials kept letters with power 0 and accepted
 negative and overflowing powers

---
 roughpy/src/scalars/r_py_polynomial.cpp | 60 ++++++++++++++++++-------
 1 file changed, 43 insertions(+), 17 deletions(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index 0b4833d..1181772 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -32,6 +32,8 @@
 
 #include "r_py_polynomial.h"
 
+#include <cmath>
+#include <limits>
 #include <sstream>
 
 #include "roughpy/core/check.h"                    // for throw_exception
@@ -493,6 +495,22 @@ void python::init_monomial(py::module_& m)
     m.add_object("PolynomialScalar", (PyObject*) &RPyPolynomial_Type);
 }
 
+static bool power_from_pylong(PyObject* py_power, deg_t& power)
+{
+    const auto value = PyLong_AsLong(py_power);
+    if (value == -1 && PyErr_Occurred() != nullptr) { return false; }
+    if (value < 0) {
+        PyErr_SetString(PyExc_ValueError, "powers cannot be negative");
+        return false;
+    }
+    if (value > std::numeric_limits<deg_t>::max()) {
+        PyErr_SetString(PyExc_OverflowError, "power is too large");
+        return false;
+    }
+    power = static_cast<deg_t>(value);
+    return true;
+}
+
 static bool insert_from_pair(scalars::monomial& monomial, PyObject* item)
 {
     auto* first = PyTuple_GetItem(item, 0);
@@ -506,9 +524,11 @@ static bool insert_from_pair(scalars::monomial& monomial, PyObject* item)
     scalars::indeterminate_type indet(0, 0);
 
     if (!indeterminate_from_string(first, indet)) { return false; }
-    auto pow = PyLong_AsLong(second);
+    deg_t pow = 0;
+    if (!power_from_pylong(second, pow)) { return false; }
 
-    monomial *= scalars::monomial(indet, static_cast<deg_t>(pow));
+    // Letters with power 0 are not part of a monomial
+    if (pow > 0) { monomial *= scalars::monomial(indet, pow); }
     return true;
 }
 
@@ -595,8 +615,9 @@ construct_new_monomial(RPyMonomial* p_obj, PyObject* args, PyObject* kwargs)
             );
             return false;
         }
-        auto pow = PyLong_AsLong(value);
-        p_obj->m_data *= scalars::monomial(letter, static_cast<deg_t>(pow));
+        deg_t pow = 0;
+        if (!power_from_pylong(value, pow)) { return false; }
+        if (pow > 0) { p_obj->m_data *= scalars::monomial(letter, pow); }
     }
     return true;
 }
@@ -691,8 +712,21 @@ int monomial_ass_subscript(PyObject* self, PyObject* index, PyObject* arg)
     scalars::indeterminate_type letter(0, 0);
     if (!indeterminate_from_string(index, letter)) { return -1; }
 
+    deg_t pow = 0;
+    if (!power_from_pylong(arg, pow)) { return -1; }
+
     try {
-        mon[letter] = static_cast<deg_t>(PyLong_AsLong(arg));
+        if (pow > 0) {
+            mon[letter] = pow;
+        } else {
+            scalars::monomial others;
+            for (const auto& item : mon) {
+                if (!(item.first == letter)) {
+                    others[item.first] = item.second;
+                }
+            }
+            mon = std::move(others);
+        }
     } catch (std::exception& exc) {
         PyErr_SetString(PyExc_RuntimeError, "an unexpected error occurred");
         return -1;
@@ -789,12 +823,8 @@ PyObject* monomial_pow(PyObject* self, PyObject* other, PyObject*)
 {
     if (is_monomial(self) && PyLong_Check(other)) {
         const auto& lhs = cast_mon(self);
-        auto power = static_cast<deg_t>(PyLong_AsLong(other));
-
-        if (power < 0) {
-            PyErr_SetString(PyExc_ValueError, "powers cannot be negative");
-            return nullptr;
-        }
+        deg_t power = 0;
+        if (!power_from_pylong(other, power)) { return nullptr; }
 
         scalars::monomial result;
         if (power > 0) {
@@ -822,12 +852,8 @@ PyObject* monomial_inplace_pow(PyObject* self, PyObject* other, PyObject*)
 {
     if (is_monomial(self) && PyLong_Check(other)) {
         auto& lhs = cast_mon(self);
-        auto power = static_cast<deg_t>(PyLong_AsLong(other));
-
-        if (power < 0) {
-            PyErr_SetString(PyExc_ValueError, "powers cannot be negative");
-            return nullptr;
-        }
+        deg_t power = 0;
+        if (!power_from_pylong(other, power)) { return nullptr; }
 
         if (power == 0) {
             lhs = scalars::monomial();
-- 
2.43.0


From 3124868ba122ca3e1485e09885c0f2c8247dcc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:00 +0000
Subject: [PATCH 63/99] fix: polynomials could not be made from large integers,
 and crashed on infinities and not-a-number

---
 roughpy/src/scalars/r_py_polynomial.cpp | 42 +++++++++++++++----------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index 1181772..1808c34 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -737,26 +737,36 @@ int monomial_ass_subscript(PyObject* self, PyObject* index, PyObject* arg)
 
 static inline bool py_scalar_to_rat(rat_t& result, PyObject* scalar) noexcept
 {
-    if (PyLong_Check(scalar)) {
-        result = rat_t(PyLong_AsLongLong(scalar));
-        return true;
-    }
-    if (PyFloat_Check(scalar)) {
-        result = rat_t(PyFloat_AsDouble(scalar));
-        return true;
-    }
-
     try {
+        if (PyLong_Check(scalar)) {
+            int overflow = 0;
+            const auto value = PyLong_AsLongLongAndOverflow(scalar, &overflow);
+            result = (overflow == 0)
+                    ? rat_t(value)
+                    : rat_t(py::str(py::handle(scalar)).cast<string>());
+            return true;
+        }
+        if (PyFloat_Check(scalar)) {
+            const auto value = PyFloat_AsDouble(scalar);
+            if (!std::isfinite(value)) { return false; }
+            result = rat_t(value);
+            return true;
+        }
+
         auto fraction = get_py_rational();
         if (py::isinstance(scalar, fraction)) {
-            auto numr = PyLong_AsLongLong(
-                    PyObject_GetAttrString(scalar, "numerator")
-            );
-            auto denr = PyLong_AsLongLong(
-                    PyObject_GetAttrString(scalar, "denominator")
-            );
+            const py::handle handle(scalar);
+            rat_t numr;
+            rat_t denr;
+            if (!py_scalar_to_rat(numr, py::object(handle.attr("numerator")).ptr())
+                || !py_scalar_to_rat(
+                        denr,
+                        py::object(handle.attr("denominator")).ptr()
+                )) {
+                return false;
+            }
 
-            result = rat_t(numr, denr);
+            result = numr / denr;
             return true;
         }
     } catch (py::error_already_set&) {
-- 
2.43.0


From 372aae7f3a71be78f0332650cd2ab722e921dacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:15 +0000
Subject: [PATCH 64/99] fix: letters of monomials that cannot be represented
 were turned into other letters

---
 roughpy/src/scalars/r_py_polynomial.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index 1808c34..0349057 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -32,6 +32,7 @@
 
 #include "r_py_polynomial.h"
 
+#include <climits>
 #include <cmath>
 #include <limits>
 #include <sstream>
@@ -1133,7 +1134,7 @@ bool indeterminate_from_string(
     }
 
     auto chr = PyUnicode_READ_CHAR(py_string, 0);
-    if (!Py_UNICODE_ISALPHA(chr)) {
+    if (chr > 127 || !Py_UNICODE_ISALPHA(chr)) {
         PyErr_SetString(
                 PyExc_ValueError,
                 "expected first letter to be an latin character"
@@ -1153,6 +1154,10 @@ bool indeterminate_from_string(
         }
         index *= 10;
         index += static_cast<int_type>(Py_UNICODE_TODIGIT(chr));
+        if ((index >> (CHAR_BIT * (sizeof(int_type) - sizeof(char)))) != 0) {
+            PyErr_SetString(PyExc_ValueError, "index is too large");
+            return false;
+        }
     }
 
     out = scalars::indeterminate_type(sym, index);
-- 
2.43.0


From d8c4dab22c946d0a99d24426e108781ae6d90658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:55 +0000
Subject: [PATCH 65/99] fix: keys of a monomial that are not strings were read
 as strings

---
 roughpy/src/scalars/r_py_polynomial.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index 0349057..6f8853c 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -1124,6 +1124,10 @@ bool indeterminate_from_string(
         scalars::indeterminate_type& out
 )
 {
+    if (!PyUnicode_Check(py_string)) {
+        PyErr_SetString(PyExc_TypeError, "indeterminates must be strings");
+        return false;
+    }
     const auto size = PyUnicode_GET_LENGTH(py_string);
     if (size == 0) {
         PyErr_SetString(
-- 
2.43.0


From f5c1822e870101c25f048b8f55bbbe1ec6d2bdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:23 +0000
Subject: [PATCH 66/99] fix: the product of monomials lost letters and
 corrupted memory

---
 vendored/libalgebra_lite/basis/polynomial_basis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vendored/libalgebra_lite/basis/polynomial_basis.cpp b/vendored/libalgebra_lite/basis/polynomial_basis.cpp
index de81721..5e4b2a0 100644
--- a/vendored/libalgebra_lite/basis/polynomial_basis.cpp
+++ b/vendored/libalgebra_lite/basis/polynomial_basis.cpp
@@ -34,10 +34,10 @@ std::ostream& operator<<(std::ostream& os, const monomial& arg)
 
 monomial& monomial::operator*=(const monomial& rhs)
 {
-    const auto lend = m_data.end();
     for (const auto& item : rhs.m_data) {
         auto it = m_data.find(item.first);
-        if (it == lend) {
+        // Insertion invalidates the end iterator
+        if (it == m_data.end()) {
             m_data.insert(item);
         } else {
             it->second += item.second;
-- 
2.43.0


From 8396d6ec46e554193af345783087e88cbe1a465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:23 +0000
Subject: [PATCH 67/99] fix: buffers of 4-byte items crashed, and Fortran
 ordered buffers were read in the wrong order

---
 roughpy/src/args/buffer_info.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/roughpy/src/args/buffer_info.h b/roughpy/src/args/buffer_info.h
index 297b370..b459f97 100644
--- a/roughpy/src/args/buffer_info.h
+++ b/roughpy/src/args/buffer_info.h
@@ -39,7 +39,7 @@ public:
 
     RPY_NO_DISCARD bool is_contiguous() const noexcept
     {
-        return static_cast<bool>(PyBuffer_IsContiguous(&m_view, 'A'));
+        return static_cast<bool>(PyBuffer_IsContiguous(&m_view, 'C'));
     }
 
     RPY_NO_DISCARD idimn_t itemsize() const noexcept
@@ -50,7 +50,7 @@ public:
 
     RPY_NO_DISCARD idimn_t ndim() const noexcept
     {
-        return static_cast<idimn_t>(m_view.itemsize);
+        return static_cast<idimn_t>(m_view.ndim);
     }
 
     RPY_NO_DISCARD const Py_ssize_t* shape() const noexcept
-- 
2.43.0


From d14bd58b17c7790765eea0248ecc80e5e7bfd297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:23 +0000
Subject: [PATCH 68/99] fix: rows of strided arrays overwrote each other, and
 the value of 0-dimensional arrays was lost

---
 roughpy/src/args/strided_copy.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/roughpy/src/args/strided_copy.cpp b/roughpy/src/args/strided_copy.cpp
index 2adc5db..f046b8d 100644
--- a/roughpy/src/args/strided_copy.cpp
+++ b/roughpy/src/args/strided_copy.cpp
@@ -128,7 +128,7 @@ void rpy::python::stride_copy(
         const idimn_t* strides
 )
 {
-    if (ndim == 0) { return; }
+    if (in.empty()) { return; }
     const auto info = in.type_info();
 
     auto compressed_ndim
@@ -153,14 +153,6 @@ void rpy::python::stride_copy(
             return offset;
         };
 
-        auto dst_offset = [&shape, &uncompressed, &index]() {
-            dimn_t offset = index[uncompressed-1];
-            for (int32_t i = 1; i < uncompressed; ++i) {
-                offset += shape[i] * index[i-1];
-            }
-            return offset;
-        };
-
         auto advance_index = [&shape, &index]() {
             auto dim = index.size() - 1;
             for (auto it = index.rbegin(); it != index.rend(); ++it, --dim) {
@@ -179,8 +171,9 @@ void rpy::python::stride_copy(
                 std::multiplies<>()
         );
 
+        // The destination is C-contiguous, and index runs in C order
+        dimn_t offset = 0;
         for (; index[0] < shape[0]; advance_index()) {
-            auto offset = dst_offset();
             auto tmp_out = out[{offset, offset + compression_size}];
             scalars::ScalarArray tmp_in(
                     info,
@@ -188,6 +181,7 @@ void rpy::python::stride_copy(
                     compression_size
             );
             tp->convert_copy(tmp_out, tmp_in);
+            offset += compression_size;
         }
     }
 }
-- 
2.43.0


From 885c730672cfbfdd63fc294b649821d735587ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:23 +0000
Subject: [PATCH 69/99] fix: converting an array into a larger one read beyond
 its end

---
 scalars/src/scalar_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalars/src/scalar_type.cpp b/scalars/src/scalar_type.cpp
index 80c8ab0..46e62f0 100644
--- a/scalars/src/scalar_type.cpp
+++ b/scalars/src/scalar_type.cpp
@@ -138,7 +138,7 @@ void ScalarType::convert_copy(
                 dst.type_info(),
                 src.pointer(),
                 src.type_info(),
-                dst.size()
+                src.size()
         )) {
         RPY_THROW(std::runtime_error, "convert copy failed");
     }
-- 
2.43.0


From a7130987b844e159218eceec2f77226b16ba982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:23 +0000
Subject: [PATCH 70/99] fix: strides of the array of indices were ignored, and
 indices could not be a column of the data

---
 roughpy/src/streams/lie_increment_stream.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/roughpy/src/streams/lie_increment_stream.cpp b/roughpy/src/streams/lie_increment_stream.cpp
index 81572f2..078a335 100644
--- a/roughpy/src/streams/lie_increment_stream.cpp
+++ b/roughpy/src/streams/lie_increment_stream.cpp
@@ -39,6 +39,7 @@
 
 #include "args/kwargs_to_path_metadata.h"
 #include "args/parse_data_argument.h"
+#include "args/strided_copy.h"
 #include "scalars/scalar_type.h"
 #include "scalars/scalars.h"
 #include "schema_finalization.h"
@@ -68,7 +69,14 @@ void buffer_to_indices(
     scalars::ScalarArray dst(indices.data(), indices.size());
     scalars::ScalarArray src(py_buffer_to_type_info(info), info.ptr, info.size);
 
-    (*scalars::scalar_type_of<param_t>())->convert_copy(dst, src);
+    // The buffer might not be contiguous
+    stride_copy(
+            dst,
+            src,
+            static_cast<int32_t>(info.ndim),
+            info.shape.data(),
+            info.strides.data()
+    );
 }
 
 static py::object lie_increment_stream_from_increments(py::object data, py::kwargs kwargs)
@@ -139,7 +147,7 @@ static py::object lie_increment_stream_from_increments(py::object data, py::kwar
             };
 
             for (dimn_t i = 0; i < num_increments; ++i) {
-                auto row = ks_stream[i];
+                const auto row = ks_stream[i];
 
                 if (row.has_keys()) {
 
-- 
2.43.0


From 30b67e784c96855f1c47284d9fb6380794eb9c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:44 +0000
Subject: [PATCH 71/99] fix: dtype= given by name or by a numpy type always
 meant DPReal

---
 roughpy/src/args/parse_algebra_configuration.cpp |  5 +++++
 roughpy/src/scalars/scalar_type.cpp              |  3 +++
 scalars/src/scalar_type.cpp                      | 13 ++++++++++++-
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/roughpy/src/args/parse_algebra_configuration.cpp b/roughpy/src/args/parse_algebra_configuration.cpp
index 6fffa27..9b9758f 100644
--- a/roughpy/src/args/parse_algebra_configuration.cpp
+++ b/roughpy/src/args/parse_algebra_configuration.cpp
@@ -100,6 +100,11 @@ AlgebraConfiguration python::parse_algebra_configuration(py::kwargs& kwargs)
 #ifdef ROUGHPY_WITH_NUMPY
                 if (py::isinstance<py::dtype>(obj)) {
                     result.scalar_type = npy_dtype_to_ctype(obj);
+                } else if (PyType_Check(obj.ptr())
+                           && !py::isinstance(obj, get_scalar_metaclass())) {
+                    // Other types mean the numpy dtype of the same name
+                    result.scalar_type
+                            = npy_dtype_to_ctype(py::dtype::from_args(obj));
                 } else {
                     result.scalar_type = py_arg_to_ctype(obj);
                 }
diff --git a/roughpy/src/scalars/scalar_type.cpp b/roughpy/src/scalars/scalar_type.cpp
index 4c0a843..1824b67 100644
--- a/roughpy/src/scalars/scalar_type.cpp
+++ b/roughpy/src/scalars/scalar_type.cpp
@@ -462,6 +462,9 @@ const scalars::ScalarType* python::py_arg_to_ctype(const pybind11::object& arg)
     if (py::isinstance<py::str>(arg)) {
         return scalars::ScalarType::for_id(arg.cast<string>());
     }
+    if (!arg.is_none()) {
+        RPY_THROW(py::type_error, "argument is not a valid scalar type");
+    }
     return nullptr;
 }
 
diff --git a/scalars/src/scalar_type.cpp b/scalars/src/scalar_type.cpp
index 46e62f0..dc048aa 100644
--- a/scalars/src/scalar_type.cpp
+++ b/scalars/src/scalar_type.cpp
@@ -146,7 +146,18 @@ void ScalarType::convert_copy(
 
 const ScalarType* ScalarType::for_id(string_view id)
 {
-    return *ScalarType::of<double>();
+    const auto type = get_type(id);
+    if (type) { return *type; }
+
+    // Accept the names of the types besides their identifiers
+    for (const auto* named : {*ScalarType::of<float>(), *ScalarType::of<double>()}) {
+        if (id == named->name()) { return named; }
+    }
+
+    RPY_THROW(
+            std::invalid_argument,
+            "no scalar type with identifier \"" + string(id) + '"'
+    );
 }
 
 namespace {
-- 
2.43.0


From 1bd962cb6f2d34657d3a2030faad228d444d22cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:25 +0000
Subject: [PATCH 72/99] fix: strided arrays passed by DLPack were taken for
 contiguous ones

---
 roughpy/src/args/parse_data_argument.cpp | 2 +-
 roughpy/src/args/strided_copy.h          | 5 -----
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/roughpy/src/args/parse_data_argument.cpp b/roughpy/src/args/parse_data_argument.cpp
index 2a70a8b..55d2466 100644
--- a/roughpy/src/args/parse_data_argument.cpp
+++ b/roughpy/src/args/parse_data_argument.cpp
@@ -298,7 +298,7 @@ void ConversionManager::handle_dltensor_leaf(LeafItem& leaf)
     auto borrow = is_C_contiguous<int64_t>(
             {tensor.strides, static_cast<dimn_t>(tensor.ndim)},
             {tensor.shape, static_cast<dimn_t>(tensor.ndim)},
-            leaf.scalar_info.bytes
+            {}// the strides of a DLTensor count elements
     );
     borrow &= m_options.scalar_type->type_info() == leaf.scalar_info;
 
diff --git a/roughpy/src/args/strided_copy.h b/roughpy/src/args/strided_copy.h
index 0fb18c7..f7556d4 100644
--- a/roughpy/src/args/strided_copy.h
+++ b/roughpy/src/args/strided_copy.h
@@ -86,11 +86,6 @@ inline bool is_C_contiguous(
 {
     if (strides.empty()) { return true; }
 
-    const size_t strides_sum = std::accumulate(strides.begin(), strides.end(), 0);
-    if (strides_sum == 0) {
-        return true;
-    }
-
     T compressed_size = (itemsize) ? *itemsize : 1;
     for (auto i = strides.size(); i > 0;) {
         if (strides[--i] != compressed_size) { return false; }
-- 
2.43.0


From 5f592baa2bd924a97e4c440ee96fbf76fd7659d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:56 +0000
Subject: [PATCH 73/99] fix: threads that simplified or differentiated a stream
 while another computed it deadlocked

---
 roughpy/src/streams/stream.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/roughpy/src/streams/stream.cpp b/roughpy/src/streams/stream.cpp
index e6845c9..9683e1e 100644
--- a/roughpy/src/streams/stream.cpp
+++ b/roughpy/src/streams/stream.cpp
@@ -341,6 +341,8 @@ static PyObject* sig_deriv(PyObject* self, PyObject* args, PyObject* kwargs)
         second_arg = nullptr;
     }
 
+    // The GIL is released for computations: the stream might wait for a thread
+    // that needs the interpreter.
     algebra::FreeTensor result;
     if (PyObject_IsInstance(arg, (PyObject*) interval_type)
         && second_arg != nullptr && Py_TYPE(second_arg) == lie_type) {
@@ -350,6 +352,7 @@ static PyObject* sig_deriv(PyObject* self, PyObject* args, PyObject* kwargs)
         const auto& perturbation
                 = py::handle(second_arg).cast<const algebra::Lie&>();
 
+        py::gil_scoped_release gil;
         result = stream.signature_derivative(
                 interval,
                 perturbation,
@@ -374,6 +377,7 @@ static PyObject* sig_deriv(PyObject* self, PyObject* args, PyObject* kwargs)
         const auto& interval = py_interval.cast<const intervals::Interval&>();
         const auto& perturbation = py_perturbation.cast<const algebra::Lie&>();
 
+        py::gil_scoped_release gil;
         result = stream.signature_derivative(
                 interval,
                 perturbation,
@@ -418,6 +422,7 @@ static PyObject* sig_deriv(PyObject* self, PyObject* args, PyObject* kwargs)
             );
         }
 
+        py::gil_scoped_release gil;
         result = stream.signature_derivative(perturbations, resolution, *ctx);
     } else {
         PyErr_SetString(
@@ -461,6 +466,12 @@ simplify_stream(PyObject* self, PyObject* args, PyObject* kwargs)
 
     const auto& partition = py::cast<const intervals::Partition&>(py_partition);
 
+    const auto simplify = [&](const algebra::Context& ctx) {
+        // The stream might wait for a thread that needs the interpreter
+        py::gil_scoped_release gil;
+        return stream.simplify(partition, resolution, ctx);
+    };
+
     if (py_context != nullptr) {
         auto pctx = reinterpret_cast<python::RPyContext*>(py_context)->p_ctx;
 
@@ -481,18 +492,14 @@ simplify_stream(PyObject* self, PyObject* args, PyObject* kwargs)
             return nullptr;
         }
 
-        return python::RPyStream_FromStream(
-                stream.simplify(partition, resolution, *pctx)
-        );
+        return python::RPyStream_FromStream(simplify(*pctx));
     }
     if (depth != 0) {
         auto ctx = md.default_context->get_alike(depth);
-        return python::RPyStream_FromStream(
-                stream.simplify(partition, resolution, *ctx)
-        );
+        return python::RPyStream_FromStream(simplify(*ctx));
     }
 
-    return python::RPyStream_FromStream(stream.simplify(partition, resolution));
+    return python::RPyStream_FromStream(simplify(*md.default_context));
 }
 
 static const char RESTRICT_DOC[] = R"rpydoc(Create a new :class:`Stream` with the same
-- 
2.43.0


From 6916979c1e225d53be2e2c114897bf776d73d634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:23 +0000
Subject: [PATCH 74/99] fix: cells that only touch the support of a stream were
 taken to lie in it

---
 streams/src/stream_base.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/streams/src/stream_base.cpp b/streams/src/stream_base.cpp
index 35f28e2..f98fceb 100644
--- a/streams/src/stream_base.cpp
+++ b/streams/src/stream_base.cpp
@@ -44,11 +44,11 @@ StreamInterface::~StreamInterface() noexcept = default;
 bool StreamInterface::empty(const intervals::Interval& interval) const noexcept
 {
     if (interval.type() == intervals::IntervalType::Clopen) {
-        return interval.sup() < m_metadata.effective_support.inf()
+        return interval.sup() <= m_metadata.effective_support.inf()
                 || interval.inf() >= m_metadata.effective_support.sup();
     }
-    return interval.sup() <= m_metadata.effective_support.inf()
-            || interval.inf() > m_metadata.effective_support.sup();
+    return interval.sup() < m_metadata.effective_support.inf()
+            || interval.inf() >= m_metadata.effective_support.sup();
 }
 
 algebra::FreeTensor StreamInterface::unit_tensor() const
-- 
2.43.0


From a9c6017d23dc8d44ae4aa1adaf20bca363f4b38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:23 +0000
Subject: [PATCH 75/99] fix: sound streams queried in another coefficient type
 than that of the file misread their samples

---
 streams/src/external_data_stream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/streams/src/external_data_stream.cpp b/streams/src/external_data_stream.cpp
index f4db371..83ff094 100644
--- a/streams/src/external_data_stream.cpp
+++ b/streams/src/external_data_stream.cpp
@@ -63,11 +63,13 @@ algebra::Lie streams::ExternalDataStream::log_signature_impl(
 
     tmp.data_stream.reserve_size(num_increments);
     const auto width = static_cast<dimn_t>(metadata().width);
-    const auto info = metadata().data_scalar_type->type_info();
+    // The source writes scalars of the type it is asked for.
+    const auto* ctype = ctx.ctype();
+    const auto info = ctype->type_info();
 
     const auto* buf_ptr = buffer.as_slice<const byte>().data();
     for (dimn_t i = 0; i < num_increments; ++i) {
-        tmp.data_stream.push_back(scalars::ScalarArray{info, buf_ptr, width});
+        tmp.data_stream.push_back(scalars::ScalarArray{ctype, buf_ptr, width});
         buf_ptr += width * info.bytes;
     }
 
-- 
2.43.0


From 0bce27051b97d34bb56ab530200fb1a991030c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:41 +0000
Subject: [PATCH 76/99] fix: sound streams failed for cells without frames,
 beyond the file and in exact types

---
 .../sound_file_data_source.cpp                | 37 +++++++++++--------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/streams/src/external_data_sources/sound_file_data_source.cpp b/streams/src/external_data_sources/sound_file_data_source.cpp
index 74e3ed0..2d3530b 100644
--- a/streams/src/external_data_sources/sound_file_data_source.cpp
+++ b/streams/src/external_data_sources/sound_file_data_source.cpp
@@ -39,6 +39,7 @@
 #include <roughpy/scalars/scalar_types.h>
 
 #include <boost/url/parse.hpp>
+#include <algorithm>
 #include <cmath>
 
 using namespace rpy;
@@ -49,12 +50,17 @@ using URIScheme = boost::urls::scheme;
 sf_count_t SoundFileDataSource::param_to_frame(param_t param)
 {
     RPY_DBG_ASSERT(static_cast<bool>(m_handle));
-    RPY_DBG_ASSERT(param >= 0.0);
     auto sample_rate = static_cast<param_t>(m_handle.samplerate());
 
     auto seconds = (param - m_file_start) * m_time_param_scaling;
 
-    return static_cast<sf_count_t>(std::ceil(seconds * sample_rate));
+    return static_cast<sf_count_t>(
+            std::clamp(
+                    std::ceil(seconds * sample_rate),
+                    0.0,
+                    static_cast<param_t>(m_handle.frames())
+            )
+    );
 }
 
 template <typename T>
@@ -84,28 +90,27 @@ dimn_t SoundFileDataSource::query_impl(
     std::vector<T> previous(m_handle.channels());
     std::vector<T> current(m_handle.channels());
 
-    auto frame_begin = param_to_frame(interval.inf());
-    auto frame_end = param_to_frame(interval.sup());
+    // The increment of the first frame has nothing to be taken from, so this is
+    // skipped, and there is nothing before the first or after the last frame.
+    auto frame_begin
+            = std::max<sf_count_t>(param_to_frame(interval.inf()), 1);
+    auto frame_end = std::min<sf_count_t>(
+            param_to_frame(interval.sup()),
+            m_handle.frames()
+    );
 
-    if (frame_begin == frame_end) {
+    if (frame_begin >= frame_end) {
         // TODO: Check that this is the correct handling
         return 0;
     }
 
-    // If we're at the beginning of time, skip the first reading
-    if (frame_begin == 0) { ++frame_begin; }
-
     auto seek_pos = m_handle.seek(frame_begin - 1, SEEK_SET);
-    m_handle.readf(previous.data(), 1);
 
-    RPY_CHECK(
-            frame_begin > 0 && frame_begin <= frame_end
-            && frame_end <= m_handle.frames()
-    );
+    if (seek_pos == -1) { RPY_THROW(std::runtime_error, "invalid seek"); }
 
-    auto frame_count = frame_end - frame_begin;
+    m_handle.readf(previous.data(), 1);
 
-    if (seek_pos == -1) { RPY_THROW(std::runtime_error, "invalid seek"); }
+    auto frame_count = frame_end - frame_begin;
 
     result.allocate_scalars(frame_count * width);
 
@@ -215,6 +220,8 @@ dimn_t SoundFileDataSource::query(
         case scalars::ScalarTypeCode::UInt:
         case scalars::ScalarTypeCode::BFloat:
         case scalars::ScalarTypeCode::OpaqueHandle:
+        case scalars::ScalarTypeCode::ArbitraryPrecisionRational:
+        case scalars::ScalarTypeCode::APRationalPolynomial:
             return query_impl<double>(result, interval, schema);
         case scalars::ScalarTypeCode::Complex:
         case scalars::ScalarTypeCode::Bool:
-- 
2.43.0


From 3cc1f527d940e805368a47b6a5fcfc98d309b740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:41 +0000
Subject: [PATCH 77/99] fix: sound streams ignored resolution=0 and a common
 channel type, and misread time and categories

---
 .../src/streams/externally_sourced_stream.cpp |  7 +---
 .../sound_file_data_source.cpp                | 39 +++++++++++++++++++
 .../sound_file_data_source.h                  |  2 +
 3 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/roughpy/src/streams/externally_sourced_stream.cpp b/roughpy/src/streams/externally_sourced_stream.cpp
index e85b367..a03a070 100644
--- a/roughpy/src/streams/externally_sourced_stream.cpp
+++ b/roughpy/src/streams/externally_sourced_stream.cpp
@@ -108,19 +108,16 @@ external_stream_constructor(string uri_string, py::kwargs kwargs)
     //        pmd.vector_type,
     //        pmd.resolution
     //    });
-    if (!pmd.resolution) {
-        pmd.resolution = 0;
-    }
-
     if (pmd.width != 0) { factory.set_width(pmd.width); }
     if (pmd.depth != 0) { factory.set_depth(pmd.depth); }
     if (pmd.scalar_type != nullptr) { factory.set_ctype(pmd.scalar_type); }
     if (pmd.ctx) { factory.set_context(pmd.ctx); }
-    if (pmd.resolution != 0) { factory.set_resolution(*pmd.resolution); }
+    if (pmd.resolution) { factory.set_resolution(*pmd.resolution); }
     if (pmd.support) { factory.set_support(*pmd.support); }
     if (pmd.vector_type) { factory.set_vtype(*pmd.vector_type); }
 
     factory.set_schema(pmd.schema);
+    factory.add_option("default_channel_type", &pmd.default_channel_type);
 
     PyObject* py_stream = python::RPyStream_FromStream(factory.construct());
 
diff --git a/streams/src/external_data_sources/sound_file_data_source.cpp b/streams/src/external_data_sources/sound_file_data_source.cpp
index 2d3530b..7bb8b73 100644
--- a/streams/src/external_data_sources/sound_file_data_source.cpp
+++ b/streams/src/external_data_sources/sound_file_data_source.cpp
@@ -248,6 +248,7 @@ struct Payload {
     optional<algebra::VectorType> vtype;
     optional<resolution_t> resolution;
     std::shared_ptr<StreamSchema> schema;
+    ChannelType default_channel_type = ChannelType::Increment;
 };
 
 }// namespace
@@ -363,9 +364,35 @@ Stream SoundFileDataSourceFactory::construct_stream(void* payload) const
     if (!pl->schema) {
         pl->schema = std::make_shared<StreamSchema>(meta.width);
     } else if (!pl->schema->is_final()) {
+        if (pl->default_channel_type == ChannelType::Value) {
+            for (auto i = static_cast<deg_t>(pl->schema->width());
+                 i < meta.width;
+                 ++i) {
+                pl->schema->insert_value("");
+            }
+        }
         pl->schema->finalize(meta.width);
     }
 
+    // The frames hold one number for each channel of the file, so there is
+    // no time and there are no categories among them.
+    bool matches_file
+            = pl->schema->width() == static_cast<dimn_t>(meta.width)
+            && pl->default_channel_type != ChannelType::Categorical
+            && pl->default_channel_type != ChannelType::Lie;
+    dimn_t num_channels = 0;
+    for (const auto& [_, chan] : *pl->schema) {
+        matches_file &= chan->type() == ChannelType::Increment
+                || chan->type() == ChannelType::Value;
+        ++num_channels;
+    }
+    if (!matches_file || num_channels != static_cast<dimn_t>(meta.width)) {
+        RPY_THROW(
+                std::invalid_argument,
+                "the schema does not match the channels of the file"
+        );
+    }
+
     // Let the library handle normalisation
     pl->handle.command(SFC_SET_NORM_FLOAT, nullptr, SF_TRUE);
     pl->handle.command(SFC_SET_NORM_DOUBLE, nullptr, SF_TRUE);
@@ -438,6 +465,18 @@ void SoundFileDataSourceFactory::set_schema(
     reinterpret_cast<Payload*>(payload)->schema = std::move(schema);
 }
 
+void SoundFileDataSourceFactory::add_option(
+        void* payload,
+        const string& option,
+        void* value
+) const
+{
+    if (option == "default_channel_type") {
+        reinterpret_cast<Payload*>(payload)->default_channel_type
+                = *reinterpret_cast<ChannelType*>(value);
+    }
+}
+
 #define RPY_SERIAL_IMPL_CLASSNAME rpy::streams::SoundFileDataSource
 #define RPY_SERIAL_DO_SPLIT
 #include <roughpy/platform/serialization_instantiations.inl>
diff --git a/streams/src/external_data_sources/sound_file_data_source.h b/streams/src/external_data_sources/sound_file_data_source.h
index 833bd23..48d766c 100644
--- a/streams/src/external_data_sources/sound_file_data_source.h
+++ b/streams/src/external_data_sources/sound_file_data_source.h
@@ -87,6 +87,8 @@ public:
     void set_resolution(void* payload, resolution_t resolution) const override;
     void set_schema(void* payload, std::shared_ptr<StreamSchema> schema)
             const override;
+    void add_option(void* payload, const string& option, void* value)
+            const override;
     void destroy_payload(void*& payload) const override;
     ExternalDataStreamConstructor get_constructor(const url& uri
     ) const override;
-- 
2.43.0


From 085229dae35299e6dc4740b019954d829c165177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:57 +0000
Subject: [PATCH 78/99] fix: derivatives of signatures ignored the default
 resolution of signatures, and leaked or refused pairs

---
 roughpy/src/streams/stream.cpp | 66 +++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 25 deletions(-)

diff --git a/roughpy/src/streams/stream.cpp b/roughpy/src/streams/stream.cpp
index 9683e1e..ef4b321 100644
--- a/roughpy/src/streams/stream.cpp
+++ b/roughpy/src/streams/stream.cpp
@@ -311,18 +311,18 @@ static PyObject* sig_deriv(PyObject* self, PyObject* args, PyObject* kwargs)
 
     PyObject* arg;
     PyObject* second_arg = nullptr;
-    rpy::resolution_t resolution = stream.metadata().default_resolution;
+    PyObject* resolution_arg = nullptr;
     deg_t depth = -1;
     auto ctx = stream.metadata().default_context;
 
     auto parse_result = PyArg_ParseTupleAndKeywords(
             args,
             kwargs,
-            "O|Oi$i",
+            "O|OO$i",
             const_cast<char**>(kwords),
             &arg,
             &second_arg,
-            &resolution,
+            &resolution_arg,
             &depth
     );
     if (!static_cast<bool>(parse_result)) { return nullptr; }
@@ -337,12 +337,34 @@ static PyObject* sig_deriv(PyObject* self, PyObject* args, PyObject* kwargs)
             );
 
     if (second_arg != nullptr && Py_TYPE(second_arg) == &PyLong_Type) {
-        resolution = static_cast<resolution_t>(PyLong_AsLong(second_arg));
+        resolution_arg = second_arg;
         second_arg = nullptr;
     }
 
-    // The GIL is released for computations: the stream might wait for a thread
-    // that needs the interpreter.
+    // Without a resolution, this is the one signatures are computed at.
+    optional<resolution_t> resolution;
+    if (resolution_arg != nullptr && resolution_arg != Py_None) {
+        resolution = py::handle(resolution_arg).cast<resolution_t>();
+    }
+
+    const auto derivative
+            = [&](const intervals::Interval& interval,
+                  const algebra::Lie& perturbation) {
+                  // The GIL is released for computations: the stream might
+                  // wait for a thread that needs the interpreter.
+                  py::gil_scoped_release gil;
+                  if (resolution) {
+                      return stream.signature_derivative(
+                              interval,
+                              perturbation,
+                              *resolution,
+                              *ctx
+                      );
+                  }
+                  return stream
+                          .signature_derivative(interval, perturbation, *ctx);
+              };
+
     algebra::FreeTensor result;
     if (PyObject_IsInstance(arg, (PyObject*) interval_type)
         && second_arg != nullptr && Py_TYPE(second_arg) == lie_type) {
@@ -352,13 +374,7 @@ static PyObject* sig_deriv(PyObject* self, PyObject* args, PyObject* kwargs)
         const auto& perturbation
                 = py::handle(second_arg).cast<const algebra::Lie&>();
 
-        py::gil_scoped_release gil;
-        result = stream.signature_derivative(
-                interval,
-                perturbation,
-                resolution,
-                *ctx
-        );
+        result = derivative(interval, perturbation);
 
     } else if (PyTuple_Check(arg) && PySequence_Length(arg) == 2) {
         py::handle py_interval;
@@ -377,23 +393,20 @@ static PyObject* sig_deriv(PyObject* self, PyObject* args, PyObject* kwargs)
         const auto& interval = py_interval.cast<const intervals::Interval&>();
         const auto& perturbation = py_perturbation.cast<const algebra::Lie&>();
 
-        py::gil_scoped_release gil;
-        result = stream.signature_derivative(
-                interval,
-                perturbation,
-                resolution,
-                *ctx
-        );
+        result = derivative(interval, perturbation);
     } else if (static_cast<bool>(PySequence_Check(arg)) && PySequence_Length(arg) > 0) {
         streams::Stream::perturbation_list_t perturbations;
         const auto n_perturbations = PySequence_Length(arg);
         perturbations.reserve(n_perturbations);
 
         for (Py_ssize_t i = 0; i < n_perturbations; ++i) {
-            PyObject* item = PySequence_ITEM(arg, i);
+            auto item = py::reinterpret_steal<py::object>(
+                    PySequence_GetItem(arg, i)
+            );
+            if (!item) { return nullptr; }
 
-            if (!static_cast<bool>(PySequence_Check(item))
-                || PySequence_Length(item) != 2) {
+            if (!py::isinstance<py::tuple>(item)
+                && !py::isinstance<py::list>(item)) {
                 PyErr_SetString(
                         PyExc_TypeError,
                         "expected interval/perturbation pair"
@@ -404,8 +417,9 @@ static PyObject* sig_deriv(PyObject* self, PyObject* args, PyObject* kwargs)
             py::handle py_interval;
             py::handle py_perturbation;
 
+            const auto pair = py::tuple(item);
             parse_result = PyArg_ParseTuple(
-                    item,
+                    pair.ptr(),
                     "O!O!",
                     interval_type,
                     &py_interval.ptr(),
@@ -423,7 +437,9 @@ static PyObject* sig_deriv(PyObject* self, PyObject* args, PyObject* kwargs)
         }
 
         py::gil_scoped_release gil;
-        result = stream.signature_derivative(perturbations, resolution, *ctx);
+        result = resolution
+                ? stream.signature_derivative(perturbations, *resolution, *ctx)
+                : stream.signature_derivative(perturbations, *ctx);
     } else {
         PyErr_SetString(
                 PyExc_ValueError,
-- 
2.43.0


From 442a63e4fc4611bcd8985cbd7b9ca9d6f2cb2040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:56 +0000
Subject: [PATCH 79/99] fix: products of a context with elements of other
 contexts read their data as its own

---
 algebra/src/lite_context.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/algebra/src/lite_context.h b/algebra/src/lite_context.h
index c1da396..ab4c664 100644
--- a/algebra/src/lite_context.h
+++ b/algebra/src/lite_context.h
@@ -289,6 +289,21 @@ private:
         return UnspecifiedAlgebraType(new impl_t(this, wrapper(left, right)));
     }
 
+    /// The functions below use the data of their arguments as it is, so these
+    /// must be elements of the algebras of this context.
+    void check_arguments(
+            ConstRawUnspecifiedAlgebraType left,
+            ConstRawUnspecifiedAlgebraType right
+    ) const
+    {
+        if (left->context().get() != this || right->context().get() != this) {
+            RPY_THROW(
+                    std::invalid_argument,
+                    "the arguments do not belong to the same context"
+            );
+        }
+    }
+
 public:
     UnspecifiedAlgebraType free_multiply(
             ConstRawUnspecifiedAlgebraType left,
@@ -985,6 +1000,7 @@ UnspecifiedAlgebraType LiteContext<Coefficients>::free_multiply(
         ConstRawUnspecifiedAlgebraType right
 ) const
 {
+    check_arguments(left, right);
     return binary_invoker::eval(
             this,
             wrappers::FreeMultiply(),
@@ -998,6 +1014,7 @@ UnspecifiedAlgebraType LiteContext<Coefficients>::shuffle_multiply(
         ConstRawUnspecifiedAlgebraType right
 ) const
 {
+    check_arguments(left, right);
     return binary_invoker::eval(
             this,
             wrappers::ShuffleMultiply(),
@@ -1011,6 +1028,7 @@ UnspecifiedAlgebraType LiteContext<Coefficients>::half_shuffle_multiply(
         ConstRawUnspecifiedAlgebraType right
 ) const
 {
+    check_arguments(left, right);
     return binary_invoker::eval(
             this,
             wrappers::HalfShuffleMultiply(),
@@ -1024,6 +1042,7 @@ UnspecifiedAlgebraType LiteContext<Coefficients>::adjoint_to_left_multiply_by(
         ConstRawUnspecifiedAlgebraType argument
 ) const
 {
+    check_arguments(multiplier, argument);
     return binary_invoker::eval(
             this,
             wrappers::AdjointFreeMultiply(),
-- 
2.43.0


From 6401227d10483e02d3bec2b5c889fa08cd28e205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:56 +0000
Subject: [PATCH 80/99] fix: Context() and the base class of scalar types made
 objects that end the process

---
 roughpy/src/algebra/context.cpp     | 13 +++++++++----
 roughpy/src/scalars/scalar_type.cpp | 27 ++++++++++++++++++++++-----
 roughpy/src/scalars/scalar_type.h   | 10 +++++++++-
 3 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/roughpy/src/algebra/context.cpp b/roughpy/src/algebra/context.cpp
index 40ddc52..3e6b13c 100644
--- a/roughpy/src/algebra/context.cpp
+++ b/roughpy/src/algebra/context.cpp
@@ -400,10 +400,15 @@ static PyObject* RPyContext_str(PyObject* self)
     return RPyContext_repr(self);
 }
 
-RPY_MAYBE_UNUSED static PyObject*
-RPyContext_new(PyObject* self, PyObject* args, PyObject* kwargs)
+static PyObject*
+RPyContext_new(PyTypeObject* type, PyObject* args, PyObject* kwargs)
 {
-    RPY_UNREACHABLE_RETURN(nullptr);
+    // An object made here would not refer to any context
+    PyErr_SetString(
+            PyExc_TypeError,
+            "cannot create 'Context' instances directly, use get_context"
+    );
+    return nullptr;
 }
 
 static PyObject* RPyContext_richcompare(PyObject* o1, PyObject* o2, int opid)
@@ -474,7 +479,7 @@ PyTypeObject rpy::python::RPyContext_Type = {
         0,                                        /* tp_dictoffset */
         (initproc) nullptr,                       /* tp_init */
         nullptr,                                  /* tp_alloc */
-        PyType_GenericNew,                        /* tp_new */
+        RPyContext_new,                           /* tp_new */
 };
 }
 
diff --git a/roughpy/src/scalars/scalar_type.cpp b/roughpy/src/scalars/scalar_type.cpp
index 1824b67..61c6868 100644
--- a/roughpy/src/scalars/scalar_type.cpp
+++ b/roughpy/src/scalars/scalar_type.cpp
@@ -54,9 +54,19 @@ PyScalarMetaType_call(PyObject* self, PyObject* args, PyObject* kwargs)
 {
     using namespace python;
     auto* type = reinterpret_cast<PyTypeObject*>(self);
-    const auto* stype = reinterpret_cast<PyScalarMetaType*>(type)->tp_ctype;
+    const auto* stype = scalar_class_ctype(self);
+
+    if (stype == nullptr) {
+        // The base class is not the type of any scalar
+        PyErr_Format(
+                PyExc_TypeError,
+                "cannot create '%s' instances",
+                type->tp_name
+        );
+        return nullptr;
+    }
 
-    static const char* kwords[] = {"data", "numerator", "denominator"};
+    static const char* kwords[] = {"data", "numerator", "denominator", nullptr};
 
     PyObject* data = nullptr;
     PyObject* numerator = nullptr;
@@ -74,8 +84,6 @@ PyScalarMetaType_call(PyObject* self, PyObject* args, PyObject* kwargs)
         == 0) {
         return nullptr;
     }
-    RPY_DBG_ASSERT(stype != nullptr);
-
     scalars::Scalar result(stype);
     if (data != nullptr) {
         if (numerator != nullptr) {
@@ -247,6 +255,15 @@ static PyTypeObject PyScalarTypeBase_type = {
         0,                                       /* tp_new */
 };
 
+const scalars::ScalarType* python::scalar_class_ctype(py::handle cls)
+{
+    // The base class is a plain type object, it has no tp_ctype.
+    if (cls.ptr() == reinterpret_cast<PyObject*>(&PyScalarTypeBase_type)) {
+        return nullptr;
+    }
+    return reinterpret_cast<PyScalarMetaType*>(cls.ptr())->tp_ctype;
+}
+
 pybind11::handle python::get_scalar_metaclass()
 {
     RPY_CHECK(PyType_Ready(&PyScalarMetaType_type) == 0);
@@ -457,7 +474,7 @@ const scalars::ScalarType* python::py_type_to_scalar_type(const py::type& type)
 const scalars::ScalarType* python::py_arg_to_ctype(const pybind11::object& arg)
 {
     if (py::isinstance(arg, python::get_scalar_metaclass())) {
-        return reinterpret_cast<python::PyScalarMetaType*>(arg.ptr())->tp_ctype;
+        return to_stype_ptr(arg);
     }
     if (py::isinstance<py::str>(arg)) {
         return scalars::ScalarType::for_id(arg.cast<string>());
diff --git a/roughpy/src/scalars/scalar_type.h b/roughpy/src/scalars/scalar_type.h
index cf09568..df7cef3 100644
--- a/roughpy/src/scalars/scalar_type.h
+++ b/roughpy/src/scalars/scalar_type.h
@@ -75,6 +75,10 @@ struct new_scalar_type_temps_manager {
 py::handle get_scalar_metaclass();
 py::handle get_scalar_baseclass();
 
+/// The scalar type of a class made by the scalar metaclass, null for classes
+/// that are not the class of a scalar type, such as the base class.
+const scalars::ScalarType* scalar_class_ctype(py::handle cls);
+
 extern "C" void PyScalarMetaType_dealloc(PyObject* arg);
 
 void register_scalar_type(const scalars::ScalarType* ctype, py::handle py_type);
@@ -164,7 +168,11 @@ inline const scalars::ScalarType* to_stype_ptr(const py::handle& arg)
     if (!py::isinstance(arg, get_scalar_metaclass())) {
         RPY_THROW(py::type_error, "argument is not a valid scalar type");
     }
-    return reinterpret_cast<PyScalarMetaType*>(arg.ptr())->tp_ctype;
+    const auto* stype = scalar_class_ctype(arg);
+    if (stype == nullptr) {
+        RPY_THROW(py::type_error, "argument is not a valid scalar type");
+    }
+    return stype;
 }
 
 char format_to_type_char(const string& fmt);
-- 
2.43.0


From 3d52ff5d90c41813424517bfed65b88bafac8d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:56 +0000
Subject: [PATCH 81/99] fix: deleting items of polynomials and monomials of
 failing sequences ended the process

---
 roughpy/src/scalars/r_py_polynomial.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/roughpy/src/scalars/r_py_polynomial.cpp b/roughpy/src/scalars/r_py_polynomial.cpp
index 6f8853c..ce764d0 100644
--- a/roughpy/src/scalars/r_py_polynomial.cpp
+++ b/roughpy/src/scalars/r_py_polynomial.cpp
@@ -560,18 +560,22 @@ construct_new_monomial(RPyMonomial* p_obj, PyObject* args, PyObject* kwargs)
             dict_def = arg;
         } else if (PySequence_Check(arg)) {
             auto size = PySequence_Size(arg);
-            PyObject* item;
+            if (size < 0) { return false; }
 
             for (Py_ssize_t i = 0; i < size; ++i) {
-                item = PySequence_GetItem(arg, i);
+                auto item = py::reinterpret_steal<py::object>(
+                        PySequence_GetItem(arg, i)
+                );
+                if (!item) { return false; }
 
-                if (PyUnicode_Check(item)) {
-                    if (!indeterminate_from_string(item, indet)) {
+                if (PyUnicode_Check(item.ptr())) {
+                    if (!indeterminate_from_string(item.ptr(), indet)) {
                         return false;
                     }
                     p_obj->m_data *= scalars::monomial(indet);
-                } else if (PyTuple_Check(item) && PyTuple_Size(item) == 2) {
-                    if (!insert_from_pair(p_obj->m_data, item)) {
+                } else if (PyTuple_Check(item.ptr())
+                           && PyTuple_Size(item.ptr()) == 2) {
+                    if (!insert_from_pair(p_obj->m_data, item.ptr())) {
                         return false;
                     }
                 } else {
@@ -705,6 +709,10 @@ int monomial_ass_subscript(PyObject* self, PyObject* index, PyObject* arg)
         PyErr_SetString(PyExc_TypeError, "index should be a string");
         return -1;
     }
+    if (arg == nullptr) {
+        PyErr_SetString(PyExc_TypeError, "powers cannot be deleted");
+        return -1;
+    }
     if (!PyLong_Check(arg)) {
         PyErr_SetString(PyExc_TypeError, "expected an int");
         return -1;
@@ -1337,6 +1345,11 @@ int polynomial_ass_subscript(PyObject* self, PyObject* index, PyObject* arg)
     auto& poly = cast_poly(self);
     scalars::monomial monomial;
 
+    if (arg == nullptr) {
+        PyErr_SetString(PyExc_TypeError, "coefficients cannot be deleted");
+        return -1;
+    }
+
     if (is_monomial(index)) {
         monomial = cast_mon(index);
     } else if (PyUnicode_Check(index)) {
-- 
2.43.0


From b53ce59d42222bda415391f2ed75d2339d290d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:56 +0000
Subject: [PATCH 82/99] fix: arrays of numbers without a scalar type ended the
 process

---
 scalars/src/scalar.cpp         | 11 +++++++++--
 scalars/src/scalar_type_of.cpp |  3 ++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/scalars/src/scalar.cpp b/scalars/src/scalar.cpp
index a96c0fb..1192329 100644
--- a/scalars/src/scalar.cpp
+++ b/scalars/src/scalar.cpp
@@ -45,6 +45,13 @@
 using namespace rpy;
 using namespace rpy::scalars;
 
+static inline const ScalarType* supported_type_of(devices::TypeInfo info)
+{
+    auto tp_o = scalar_type_of(info);
+    if (!tp_o) { RPY_THROW(std::runtime_error, "unsupported scalar type"); }
+    return *tp_o;
+}
+
 void Scalar::allocate_data()
 {
     if (!p_type_and_content_type.is_pointer()) {
@@ -75,7 +82,7 @@ Scalar::Scalar(Scalar::type_pointer type) : integer_for_convenience(0)
             mode = dtl::content_type_of(info);
             if (mode == dtl::ScalarContentType::OwnedPointer) {
                 p_type_and_content_type
-                    = type_pointer(*scalar_type_of(info), mode);
+                    = type_pointer(supported_type_of(info), mode);
             } else {
                 p_type_and_content_type = type_pointer(info, mode);
             }
@@ -103,7 +110,7 @@ Scalar::Scalar(devices::TypeInfo info)
 {
     auto mode = p_type_and_content_type.get_enumeration();
     if (mode == dtl::ScalarContentType::OwnedPointer) {
-        p_type_and_content_type = type_pointer(*scalar_type_of(info), mode);
+        p_type_and_content_type = type_pointer(supported_type_of(info), mode);
         opaque_pointer = p_type_and_content_type->allocate_single();
     }
 }
diff --git a/scalars/src/scalar_type_of.cpp b/scalars/src/scalar_type_of.cpp
index 7254219..66b22c9 100644
--- a/scalars/src/scalar_type_of.cpp
+++ b/scalars/src/scalar_type_of.cpp
@@ -27,5 +27,6 @@ optional<const ScalarType*> rpy::scalars::scalar_type_of(devices::TypeInfo info)
     DO_FOR_EACH_X(info)
 #undef X
 
-    RPY_THROW(std::runtime_error, "unsupported scalar type");
+    // There is no scalar type for this kind of number
+    return {};
 }
-- 
2.43.0


From 6d3ed4896e14aa6775d8fa9423c0753a6ae499c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:56 +0000
Subject: [PATCH 83/99] fix: comparing rationals with nan or inf, or dividing
 by these, ended the process

---
 scalars/src/scalar/arithmetic.cpp | 9 +++++++++
 scalars/src/scalar/comparison.cpp | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/scalars/src/scalar/arithmetic.cpp b/scalars/src/scalar/arithmetic.cpp
index 88e4ca9..ac7a5df 100644
--- a/scalars/src/scalar/arithmetic.cpp
+++ b/scalars/src/scalar/arithmetic.cpp
@@ -45,6 +45,8 @@
 #include "do_macro.h"
 #include "type_promotion.h"
 
+#include <cmath>
+
 
 
 using namespace rpy;
@@ -287,6 +289,13 @@ static inline enable_if_t<
                 T&>>
 do_divide_impl(T* dst, const R* divisor)
 {
+    if constexpr (is_same_v<T, rational_scalar_type>
+                  && is_floating_point_v<R>) {
+        // There are no infinite or not-a-number rationals
+        if (!std::isfinite(*divisor)) {
+            RPY_THROW(std::domain_error, "value is not a rational number");
+        }
+    }
     *dst /= *divisor;
 }
 
diff --git a/scalars/src/scalar/comparison.cpp b/scalars/src/scalar/comparison.cpp
index 802bc40..352201d 100644
--- a/scalars/src/scalar/comparison.cpp
+++ b/scalars/src/scalar/comparison.cpp
@@ -34,6 +34,7 @@
 #include "do_macro.h"
 #include <roughpy/scalars/scalar_types.h>
 
+#include <cmath>
 #include <limits>
 
 using namespace rpy;
@@ -191,6 +192,10 @@ template <typename L>
 constexpr bool
 compare_wrap_unequal(const L& lhs, const rational_scalar_type& rhs) noexcept
 {
+    if constexpr (is_floating_point_v<L>) {
+        // No rational is infinite or not-a-number
+        if (!std::isfinite(lhs)) { return false; }
+    }
     return rational_scalar_type(lhs) == rhs;
 }
 template <typename R>
-- 
2.43.0


From 1319e120781283f197069848a358245ca8ec5a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:55 +0000
Subject: [PATCH 84/99] fix: reading a tensor beyond the basis gave the
 coefficient of the empty word

---
 algebra/src/libalgebra_lite_internal/tensor_basis_info.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/algebra/src/libalgebra_lite_internal/tensor_basis_info.h b/algebra/src/libalgebra_lite_internal/tensor_basis_info.h
index cdaa711..8f5b73a 100644
--- a/algebra/src/libalgebra_lite_internal/tensor_basis_info.h
+++ b/algebra/src/libalgebra_lite_internal/tensor_basis_info.h
@@ -81,6 +81,11 @@ struct BasisInfo<TensorBasis, lal::tensor_basis> {
     convert_to_impl(storage_t basis, const our_key_type& arg)
     {
         // Default is to treat rpy keys as the index of impl keys
+        if (arg >= dimension(basis)) {
+            // Beyond the basis index_to_key gives the empty word, take a word
+            // that is too long to belong to any element.
+            return impl_key_type(basis->depth() + 1, 0);
+        }
         return basis->index_to_key(arg);
     }
 
-- 
2.43.0


From 9a4f5f6906044691047dd505937899e495cbd8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:55 +0000
Subject: [PATCH 85/99] fix: objects without a length as schema, and large
 numerators, raised SystemError

---
 roughpy/src/args/kwargs_to_path_metadata.cpp | 2 ++
 roughpy/src/args/parse_schema.cpp            | 2 ++
 roughpy/src/scalars/scalar_type.cpp          | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/roughpy/src/args/kwargs_to_path_metadata.cpp b/roughpy/src/args/kwargs_to_path_metadata.cpp
index 85d2d09..1ddc950 100644
--- a/roughpy/src/args/kwargs_to_path_metadata.cpp
+++ b/roughpy/src/args/kwargs_to_path_metadata.cpp
@@ -118,6 +118,8 @@ python::PyStreamMetaData python::kwargs_to_metadata(pybind11::kwargs& kwargs)
         } else if (py::isinstance<py::sequence>(channels)) {
             auto channel_list = py::reinterpret_borrow<py::sequence>(channels);
             md.schema = std::make_shared<streams::StreamSchema>();
+            // Objects can look like sequences and still have no length
+            py::len(channel_list);
 
             for (auto&& item : channel_list) {
                 switch (python::py_to_channel_type(
diff --git a/roughpy/src/args/parse_schema.cpp b/roughpy/src/args/parse_schema.cpp
index 14054a7..f5fcaf3 100644
--- a/roughpy/src/args/parse_schema.cpp
+++ b/roughpy/src/args/parse_schema.cpp
@@ -196,6 +196,8 @@ void handle_dict_schema(StreamSchema* schema, py::dict data)
 
 void handle_seq_schema(StreamSchema* schema, py::sequence data)
 {
+    // Objects can look like sequences and still have no length
+    py::len(data);
 
     for (auto&& item : data) {
         if (py::isinstance<py::dict>(item)) {
diff --git a/roughpy/src/scalars/scalar_type.cpp b/roughpy/src/scalars/scalar_type.cpp
index 61c6868..5320684 100644
--- a/roughpy/src/scalars/scalar_type.cpp
+++ b/roughpy/src/scalars/scalar_type.cpp
@@ -140,7 +140,9 @@ PyScalarMetaType_call(PyObject* self, PyObject* args, PyObject* kwargs)
         }
 
         auto num = PyLong_AsLongLong(numerator);
+        if (num == -1 && PyErr_Occurred() != nullptr) { return nullptr; }
         auto denom = PyLong_AsLongLong(denominator);
+        if (denom == -1 && PyErr_Occurred() != nullptr) { return nullptr; }
 
         try {
             result = scalars::Scalar(stype, num, denom);
-- 
2.43.0


From 9ddcc450e9cd8aa4e4fbfa26772bed9532565608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:55 +0000
Subject: [PATCH 86/99] fix: indices that are nan or infinite were accepted and
 sorted the increments at random

---
 roughpy/src/streams/lie_increment_stream.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/roughpy/src/streams/lie_increment_stream.cpp b/roughpy/src/streams/lie_increment_stream.cpp
index 078a335..080625c 100644
--- a/roughpy/src/streams/lie_increment_stream.cpp
+++ b/roughpy/src/streams/lie_increment_stream.cpp
@@ -196,6 +196,12 @@ static py::object lie_increment_stream_from_increments(py::object data, py::kwar
         );
     }
 
+    for (const auto& index : indices) {
+        if (!std::isfinite(index)) {
+            RPY_THROW(py::value_error, "indices must be finite");
+        }
+    }
+
 
 
 
-- 
2.43.0


From eaeaae0b2ba0cdd27d832935d705a768c7bea242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:50 +0000
Subject: [PATCH 87/99] fix: leaving a with block of a Context dropped a
 reference too many

---
 roughpy/src/algebra/context.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/roughpy/src/algebra/context.cpp b/roughpy/src/algebra/context.cpp
index 3e6b13c..a6b4205 100644
--- a/roughpy/src/algebra/context.cpp
+++ b/roughpy/src/algebra/context.cpp
@@ -293,7 +293,11 @@ static PyObject* RPyContext_tensor_to_lie(PyObject * self, PyObject * arg)
     );
 }
 
-static PyObject* RPyContext_enter(PyObject* self) { return self; }
+static PyObject* RPyContext_enter(PyObject* self)
+{
+    Py_INCREF(self);
+    return self;
+}
 
 static PyObject* RPyContext_exit(PyObject* self, PyObject* RPY_UNUSED_VAR)
 {
-- 
2.43.0


From d3b5cc01f34b12b0abc028a43af040acc74b1f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:50 +0000
Subject: [PATCH 88/99] fix: __dlpack__ that returns no capsule, and None as
 schema of a construction helper, ended the process

---
 roughpy/src/args/dlpack_helpers.h                     | 7 +++++--
 roughpy/src/scalars/scalars.cpp                       | 5 ++---
 roughpy/src/streams/r_py_tick_construction_helper.cpp | 4 ++--
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/roughpy/src/args/dlpack_helpers.h b/roughpy/src/args/dlpack_helpers.h
index 4471de8..209920b 100644
--- a/roughpy/src/args/dlpack_helpers.h
+++ b/roughpy/src/args/dlpack_helpers.h
@@ -140,8 +140,11 @@ inline const scalars::ScalarType* scalar_type_of_dl_info(const DLDataType& dtype
 
 RPY_NO_EXPORT inline py::capsule py_to_dlpack(py::handle arg)
 {
-    return py::reinterpret_borrow<py::capsule>(arg.attr("__dlpack__")(
-    ));
+    py::object result = arg.attr("__dlpack__")();
+    if (PyCapsule_IsValid(result.ptr(), "dltensor") == 0) {
+        RPY_THROW(py::value_error, "__dlpack__ returned invalid object");
+    }
+    return py::reinterpret_borrow<py::capsule>(result);
 }
 
 RPY_NO_EXPORT inline DLManagedTensor*
diff --git a/roughpy/src/scalars/scalars.cpp b/roughpy/src/scalars/scalars.cpp
index 0ed1306..dcd8034 100644
--- a/roughpy/src/scalars/scalars.cpp
+++ b/roughpy/src/scalars/scalars.cpp
@@ -378,10 +378,9 @@ static bool try_fill_buffer_dlpack(
         const py::handle& object
 )
 {
-    py::capsule dlpack;
-    dlpack = object.attr("__dlpack__")();
+    const py::capsule dlpack = py_to_dlpack(object);
 
-    auto* tensor = reinterpret_cast<DLManagedTensor*>(dlpack.get_pointer());
+    auto* tensor = unpack_dl_capsule(dlpack);
     if (tensor == nullptr) {
         RPY_THROW(py::value_error, "__dlpack__ returned invalid object");
     }
diff --git a/roughpy/src/streams/r_py_tick_construction_helper.cpp b/roughpy/src/streams/r_py_tick_construction_helper.cpp
index e7b2dd0..8b9f343 100644
--- a/roughpy/src/streams/r_py_tick_construction_helper.cpp
+++ b/roughpy/src/streams/r_py_tick_construction_helper.cpp
@@ -204,8 +204,8 @@ void python::init_tick_construction_helper(py::module_& m)
     klass.def(py::init<>());
     klass.def(py::init<bool>(), "schema_only"_a);
     klass.def(
-            py::init<std::shared_ptr<StreamSchema>, bool>(), "schema"_a,
-            "schema_only"_a = false
+            py::init<std::shared_ptr<StreamSchema>, bool>(),
+            "schema"_a.none(false), "schema_only"_a = false
     );
     klass.def("add_time_channel", &helper_t::add_time_channel);
 
-- 
2.43.0


From 0e8420d29998e068c3f37f8a51da4a12356856ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:50 +0000
Subject: [PATCH 89/99] fix: resolutions out of range gave zero or never ended

---
 intervals/src/dyadic_interval.cpp           |  9 +++++++
 roughpy/src/streams/signature_arguments.cpp | 28 +++++++++++++++++----
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/intervals/src/dyadic_interval.cpp b/intervals/src/dyadic_interval.cpp
index 93355eb..6fa5038 100644
--- a/intervals/src/dyadic_interval.cpp
+++ b/intervals/src/dyadic_interval.cpp
@@ -33,7 +33,9 @@
 #include <roughpy/intervals/dyadic_interval.h>
 
 #include <algorithm>
+#include <cmath>
 #include <list>
+#include <stdexcept>
 
 
 #include "roughpy/core/check.h"               // for throw_exception, RPY_CHECK
@@ -62,6 +64,13 @@ DyadicInterval::DyadicInterval(param_t val, Dyadic::power_t resolution,
     : Dyadic(0, 0), Interval(itype)
 {
     auto rescaled = ldexp(val, resolution);
+    // The multipliers of this and its neighbours must be integers in range
+    if (resolution < -1023 || !(std::abs(rescaled) < 0x1p62)) {
+        RPY_THROW(
+                std::domain_error,
+                "value cannot be represented at this resolution"
+        );
+    }
     if (m_interval_type == IntervalType::Opencl) {
         m_multiplier = ceil(rescaled);
     } else {
diff --git a/roughpy/src/streams/signature_arguments.cpp b/roughpy/src/streams/signature_arguments.cpp
index af0b838..7b42aa4 100644
--- a/roughpy/src/streams/signature_arguments.cpp
+++ b/roughpy/src/streams/signature_arguments.cpp
@@ -23,19 +23,37 @@
 #include "intervals/interval.h"
 #include "scalars/scalar_type.h"
 
+#include <limits>
 
 using namespace rpy;
 using namespace rpy::python;
 
 
+static bool resolution_from_int(PyObject* object, optional<resolution_t>& out)
+{
+    const auto value = PyLong_AsLongLong(object);
+    if (value == -1 && PyErr_Occurred() != nullptr) { return false; }
+    if (value < std::numeric_limits<resolution_t>::min()
+        || value > std::numeric_limits<resolution_t>::max()) {
+        PyErr_SetString(PyExc_OverflowError, "resolution is out of range");
+        return false;
+    }
+    out = static_cast<resolution_t>(value);
+    return true;
+}
+
 static int resolution_converter(PyObject* object, void* out)
 {
     if (Py_TYPE(object) == &PyFloat_Type) {
         *reinterpret_cast<optional<resolution_t>*>(out)
                 = python::param_to_resolution(PyFloat_AsDouble(object));
     } else if (Py_TYPE(object) == &PyLong_Type) {
-        *reinterpret_cast<optional<resolution_t>*>(out) = PyLong_AsLong(object);
-        if (PyErr_Occurred() != nullptr) { return 0; }
+        if (!resolution_from_int(
+                    object,
+                    *reinterpret_cast<optional<resolution_t>*>(out)
+            )) {
+            return 0;
+        }
 #if PY_VERSION_HEX >= 0x030A0000
     } else if (Py_IsNone(object)) {
 #else
@@ -105,9 +123,9 @@ int python::parse_sig_args(
                 );
                 return -1;
             }
-            sigargs->resolution
-                    = static_cast<resolution_t>(PyLong_AsLong(interval_or_inf));
-            if (PyErr_Occurred() != nullptr) { return -1; }
+            if (!resolution_from_int(interval_or_inf, sigargs->resolution)) {
+                return -1;
+            }
 
             sigargs->interval = {};
         } else {
-- 
2.43.0


From f45b17005ae6c4e31d64b2dbf771ac93a170d953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:36 +0000
Subject: [PATCH 90/99] fix: strings and classes that are no scalar types as
 dtype of a query ended the process

---
 roughpy/src/streams/signature_arguments.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/roughpy/src/streams/signature_arguments.cpp b/roughpy/src/streams/signature_arguments.cpp
index 7b42aa4..fa712f7 100644
--- a/roughpy/src/streams/signature_arguments.cpp
+++ b/roughpy/src/streams/signature_arguments.cpp
@@ -213,9 +213,17 @@ int python::parse_sig_args(
         if (dtype != nullptr) {
             if (Py_TYPE(dtype)
                 == (PyTypeObject*) python::get_scalar_metaclass().ptr()) {
-                ctype = ((python::PyScalarMetaType*) dtype)->tp_ctype;
+                ctype = python::scalar_class_ctype(dtype);
+                if (ctype == nullptr) {
+                    PyErr_SetString(
+                            PyExc_TypeError,
+                            "argument is not a valid scalar type"
+                    );
+                    return -1;
+                }
             } else if (Py_TYPE(dtype) == &PyUnicode_Type) {
                 const auto* dtype_str = PyUnicode_AsUTF8(dtype);
+                if (dtype_str == nullptr) { return -1; }
                 const auto ctype_o = scalars::get_type(dtype_str);
                 if (!ctype_o) {
                     PyErr_SetString(
-- 
2.43.0


From c38eff98d311a58fcf120f8a3926d7de1cdea8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:03 +0000
Subject: [PATCH 91/99] fix: products of a context with empty tensors read a
 null pointer

---
 vendored/libalgebra_lite/free_tensor.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vendored/libalgebra_lite/free_tensor.h b/vendored/libalgebra_lite/free_tensor.h
index 37f89ac..e087517 100644
--- a/vendored/libalgebra_lite/free_tensor.h
+++ b/vendored/libalgebra_lite/free_tensor.h
@@ -511,6 +511,9 @@ public:
     fma(dense_tensor_vec<Coeff>& out, const dense_tensor_vec<Coeff>& lhs,
         const dense_tensor_vec<Coeff>& rhs, Op op, deg_t max_degree) const
     {
+        // Empty vectors have no data to read.
+        if (lhs.empty() || rhs.empty()) { return; }
+
         const auto& basis = out.basis();
         if (max_degree >= basis.depth()) { max_degree = basis.depth(); }
 
-- 
2.43.0


From b53c2c8ead60b41152cd74e516749648fab1a740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:45 +0000
Subject: [PATCH 92/99] fix: compute functions misread arrays with negative
 strides

---
 roughpy/compute/_src/py_binary_array_fn.hpp  | 4 ++--
 roughpy/compute/_src/py_ternary_array_fn.hpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/roughpy/compute/_src/py_binary_array_fn.hpp b/roughpy/compute/_src/py_binary_array_fn.hpp
index 007b243..acb5c91 100644
--- a/roughpy/compute/_src/py_binary_array_fn.hpp
+++ b/roughpy/compute/_src/py_binary_array_fn.hpp
@@ -38,8 +38,8 @@ PyObject *outer_loop_binary(
         }
     };
 
-    auto const out_stride = PyArray_STRIDE(out, ndims - 1) / sizeof(Scalar);
-    auto const arg_stride = PyArray_STRIDE(arg, ndims - 1) / sizeof(Scalar);
+    auto const out_stride = PyArray_STRIDE(out, ndims - 1) / static_cast<npy_intp>(sizeof(Scalar));
+    auto const arg_stride = PyArray_STRIDE(arg, ndims - 1) / static_cast<npy_intp>(sizeof(Scalar));
 
     for (npy_intp i = 0; i < n_elements; ++i, advance()) {
         auto *out_ptr = static_cast<Scalar *>(PyArray_GetPtr(out, index.data()));
diff --git a/roughpy/compute/_src/py_ternary_array_fn.hpp b/roughpy/compute/_src/py_ternary_array_fn.hpp
index fc395a3..18cd9a5 100644
--- a/roughpy/compute/_src/py_ternary_array_fn.hpp
+++ b/roughpy/compute/_src/py_ternary_array_fn.hpp
@@ -38,9 +38,9 @@ PyObject *outer_loop_ternary(
         }
     };
 
-    auto const out_stride = PyArray_STRIDE(out, ndims - 1) / sizeof(Scalar);
-    auto const lhs_stride = PyArray_STRIDE(lhs, ndims - 1) / sizeof(Scalar);
-    auto const rhs_stride = PyArray_STRIDE(rhs, ndims - 1) / sizeof(Scalar);
+    auto const out_stride = PyArray_STRIDE(out, ndims - 1) / static_cast<npy_intp>(sizeof(Scalar));
+    auto const lhs_stride = PyArray_STRIDE(lhs, ndims - 1) / static_cast<npy_intp>(sizeof(Scalar));
+    auto const rhs_stride = PyArray_STRIDE(rhs, ndims - 1) / static_cast<npy_intp>(sizeof(Scalar));
 
     for (npy_intp i = 0; i < n_elements; ++i, advance()) {
         auto *out_ptr = static_cast<Scalar *>(PyArray_GetPtr(out, index.data()));
-- 
2.43.0


From 42fd64fe6b8cabe541c751d59ff218c7752e69f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:45 +0000
Subject: [PATCH 93/99] fix: the hash of a truncated TensorBasis was not that
 of an equal basis

---
 roughpy/compute/_src/tensor_basis.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/roughpy/compute/_src/tensor_basis.c b/roughpy/compute/_src/tensor_basis.c
index 84bfb47..49311bd 100644
--- a/roughpy/compute/_src/tensor_basis.c
+++ b/roughpy/compute/_src/tensor_basis.c
@@ -197,6 +197,7 @@ tensor_basis_truncate(PyObject* self, PyObject* args, PyObject* kwargs)
 
     new_obj->width = self_->width;
     new_obj->depth = new_depth;
+    new_obj->cached_hash = -1;
 
     // We want to do this, but the Py_NewRef was added in 3.10
     // new_obj->degree_begin = Py_NewRef(self_->degree_begin);
@@ -349,6 +350,7 @@ PyTensorBasis* PyTensorBasis_get(int32_t width, int32_t depth)
 
     self->width = width;
     self->depth = depth;
+    self->cached_hash = -1;
 
     PyObject* db = construct_tensor_db(width, depth);
     if (db == NULL) {
-- 
2.43.0


From 33f878e2c39d9d996118e10ab82e9f8667857341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:45 +0000
Subject: [PATCH 94/99] fix: check_lie_basis_data read beyond its keyword list

---
 roughpy/compute/_src/lie_basis.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/roughpy/compute/_src/lie_basis.c b/roughpy/compute/_src/lie_basis.c
index f0bff17..b35987e 100644
--- a/roughpy/compute/_src/lie_basis.c
+++ b/roughpy/compute/_src/lie_basis.c
@@ -1655,7 +1655,8 @@ PyObject* PyLieBasis_check_data(
                "depth",
                "total_order",
                "basis_major",
-               "raise_on_fail"};
+               "raise_on_fail",
+               NULL};
 
     PyObject* ret = NULL;
     PyArrayObject *data = NULL, *degree_begin = NULL;
-- 
2.43.0


From 9e8e99d49497cd650702ca70a26e852d30672e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:59 +0000
Subject: [PATCH 95/99] fix: compute functions went beyond short arrays, wrote
 to read-only ones and took swapped bytes as they are

---
 roughpy/compute/_src/check_dims.hpp          | 29 ++++++++++++++++++++
 roughpy/compute/_src/dense_basic.cpp         |  4 +++
 roughpy/compute/_src/py_binary_array_fn.hpp  |  9 ++++++
 roughpy/compute/_src/py_ternary_array_fn.hpp | 10 +++++++
 4 files changed, 52 insertions(+)

diff --git a/roughpy/compute/_src/check_dims.hpp b/roughpy/compute/_src/check_dims.hpp
index 704e2b3..7bfc837 100644
--- a/roughpy/compute/_src/check_dims.hpp
+++ b/roughpy/compute/_src/check_dims.hpp
@@ -20,6 +20,35 @@ bool check_dims(npy_intp const* shape1,
     return true;
 }
 
+/*
+ * Check that an array can be accessed directly: it has native byte order, is
+ * aligned, its last dimension holds at least core_size elements and, if it is
+ * to be written, that it is writeable. Sets an exception if not.
+ */
+inline bool check_array(PyArrayObject* arr,
+                        char const* name,
+                        npy_intp core_size,
+                        bool writeable)
+{
+    if (!PyArray_ISBEHAVED_RO(arr)) {
+        PyErr_Format(PyExc_ValueError,
+                     "%s must be aligned and in native byte order", name);
+        return false;
+    }
+    if (writeable && !PyArray_ISWRITEABLE(arr)) {
+        PyErr_Format(PyExc_ValueError, "%s must be writeable", name);
+        return false;
+    }
+    auto const ndim = PyArray_NDIM(arr);
+    if (ndim < 1 || PyArray_DIM(arr, ndim - 1) < core_size) {
+        PyErr_Format(PyExc_ValueError,
+                     "the last dimension of %s must be at least %zd",
+                     name, core_size);
+        return false;
+    }
+    return true;
+}
+
 } // namespace rpy::compute
 
 #endif //ROUGHPY_COMPUTE__SRC_CHECK_DIMS_HPP
diff --git a/roughpy/compute/_src/dense_basic.cpp b/roughpy/compute/_src/dense_basic.cpp
index de8826d..4d8f7f6 100644
--- a/roughpy/compute/_src/dense_basic.cpp
+++ b/roughpy/compute/_src/dense_basic.cpp
@@ -949,6 +949,8 @@ PyObject* py_dense_lie_to_tensor(
     }
     auto* out_arr = reinterpret_cast<PyArrayObject*>(out_obj);
 
+    if (!check_array(out_arr, "out", 0, true)) { return nullptr; }
+
     const auto n_dims = PyArray_NDIM(out_arr);
     const auto dtype = PyArray_TYPE(out_arr);
     const auto* shape = PyArray_DIMS(out_arr);
@@ -1203,6 +1205,8 @@ PyObject* py_dense_tensor_to_lie(
     }
     auto* out_arr = reinterpret_cast<PyArrayObject*>(out_obj);
 
+    if (!check_array(out_arr, "out", 0, true)) { return nullptr; }
+
     const auto n_dims = PyArray_NDIM(out_arr);
     const auto dtype = PyArray_TYPE(out_arr);
     const auto* shape = PyArray_DIMS(out_arr);
diff --git a/roughpy/compute/_src/py_binary_array_fn.hpp b/roughpy/compute/_src/py_binary_array_fn.hpp
index acb5c91..6910634 100644
--- a/roughpy/compute/_src/py_binary_array_fn.hpp
+++ b/roughpy/compute/_src/py_binary_array_fn.hpp
@@ -128,6 +128,15 @@ PyObject *binary_function_outer(PyObject *out_obj,
         return nullptr;
     }
 
+    auto const core_size = [&config](npy_intp i) {
+        auto const* basis = config.basis_data[Fn<float>::arg_basis_mapping[i]];
+        return basis->degree_begin[config.degree_bounds[i].max_degree + 1];
+    };
+    if (!check_array(out_arr, "out", core_size(0), true)
+        || !check_array(arg_arr, "arg", core_size(1), false)) {
+        return nullptr;
+    }
+
     switch (dtype) {
         case NPY_FLOAT64: return outer_loop_binary(
                 out_arr,
diff --git a/roughpy/compute/_src/py_ternary_array_fn.hpp b/roughpy/compute/_src/py_ternary_array_fn.hpp
index 18cd9a5..951a184 100644
--- a/roughpy/compute/_src/py_ternary_array_fn.hpp
+++ b/roughpy/compute/_src/py_ternary_array_fn.hpp
@@ -142,6 +142,16 @@ PyObject *ternary_function_outer(PyObject *out_obj [[maybe_unused]],
         return nullptr;
     }
 
+    auto const core_size = [&config](npy_intp i) {
+        auto const* basis = config.basis_data[Fn<float>::arg_basis_mapping[i]];
+        return basis->degree_begin[config.degree_bounds[i].max_degree + 1];
+    };
+    if (!check_array(out_arr, "out", core_size(0), true)
+        || !check_array(lhs_arr, "lhs", core_size(1), false)
+        || !check_array(rhs_arr, "rhs", core_size(2), false)) {
+        return nullptr;
+    }
+
     switch (dtype) {
         case NPY_FLOAT64: return outer_loop_ternary(
                 out_arr,
-- 
2.43.0


From 9f12981682e5cce2b9fe9f7ef788ef9f3142bf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:57 +0000
Subject: [PATCH 96/99] fix: compute functions misread strided arrays and
 operands of different depths

---
 roughpy/compute/__init__.py                   | 25 +++++++++++++------
 roughpy/compute/_src/dense_basic.cpp          | 10 +++++---
 roughpy/compute/_src/dense_intermediate.cpp   | 12 ++++-----
 .../dense/basic/shuffle_tensor_product.hpp    |  7 +++++-
 roughpy_compute/dense/views.hpp               |  2 +-
 5 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/roughpy/compute/__init__.py b/roughpy/compute/__init__.py
index 4861b53..d59a810 100644
--- a/roughpy/compute/__init__.py
+++ b/roughpy/compute/__init__.py
@@ -124,6 +124,11 @@ def _check_basis_compat(out_basis: TensorBasis, *other_bases: TensorBasis):
             raise ValueError(f"Incompatible width for basis {i}")
 
 
+def _deepest_basis(*bases: TensorBasis) -> TensorBasis:
+    # the degrees of a basis are those of any shallower basis of the same width
+    return max(bases, key=lambda basis: basis.depth)
+
+
 # Basic functions
 @_api("1.0.0")
 def ft_fma(a: FreeTensor, b: FreeTensor, c: FreeTensor, **kwargs):
@@ -142,7 +147,8 @@ def ft_fma(a: FreeTensor, b: FreeTensor, c: FreeTensor, **kwargs):
 
     # In the future, we will need to handle alternative prototype tensors here.
 
-    _internals.dense_ft_fma(a.data, b.data, c.data, b.basis, c.basis.depth)
+    _internals.dense_ft_fma(a.data, b.data, c.data, _deepest_basis(a.basis, b.basis, c.basis),
+                            out_depth=a.basis.depth, lhs_depth=b.basis.depth, rhs_depth=c.basis.depth)
 
 
 @_api("1.0.0")
@@ -181,7 +187,7 @@ def ft_inplace_mul(a: FreeTensor, b: FreeTensor, **kwargs):
 
     # In the future, we need to handle alternative prototype tensors here.
 
-    _internals.dense_ft_inplace_mul(a.data, b.data, a.basis, b.basis.depth)
+    _internals.dense_ft_inplace_mul(a.data, b.data, a.basis, rhs_depth=b.basis.depth)
 
 
 @_api("1.0.0")
@@ -211,7 +217,8 @@ def st_fma(a: ShuffleTensor, b: ShuffleTensor, c: ShuffleTensor) -> ShuffleTenso
     """
     _check_basis_compat(a.basis, b.basis, c.basis)
 
-    _internals.dense_st_fma(a.data, b.data, c.data, a.basis)
+    _internals.dense_st_fma(a.data, b.data, c.data, _deepest_basis(a.basis, b.basis, c.basis),
+                            out_depth=a.basis.depth, lhs_depth=b.basis.depth, rhs_depth=c.basis.depth)
 
     return a
 
@@ -227,7 +234,7 @@ def st_mul(lhs: ShuffleTensor, rhs: ShuffleTensor) -> ShuffleTensor:
     _check_basis_compat(lhs.basis, rhs.basis)
 
     result_data = np.zeros_like(lhs.data)
-    _internals.dense_st_fma(result_data, lhs.data, rhs.data, lhs.basis)
+    _internals.dense_st_fma(result_data, lhs.data, rhs.data, lhs.basis, rhs_depth=rhs.basis.depth)
 
     return ShuffleTensor(result_data, lhs.basis)
 
@@ -253,7 +260,7 @@ def ft_exp(x: FreeTensor, out_basis: TensorBasis | None = None) -> FreeTensor:
 
     result = np.zeros(shape, dtype=dtype)
 
-    _internals.dense_ft_exp(result, x.data, out_basis)
+    _internals.dense_ft_exp(result, x.data, out_basis, arg_depth=x.basis.depth)
 
     return FreeTensor(result, out_basis)
 
@@ -279,7 +286,7 @@ def ft_log(x: FreeTensor, out_basis: TensorBasis | None = None) -> FreeTensor:
 
     result = np.zeros(shape, dtype=dtype)
 
-    _internals.dense_ft_log(result, x.data, out_basis)
+    _internals.dense_ft_log(result, x.data, out_basis, arg_depth=x.basis.depth)
 
     return FreeTensor(result, out_basis)
 
@@ -307,7 +314,8 @@ def ft_fmexp(multiplier: FreeTensor, exponent: FreeTensor, out_basis: TensorBasi
 
     result = np.zeros(shape, dtype=dtype)
 
-    _internals.dense_ft_fmexp(result, multiplier.data, exponent.data, out_basis)
+    _internals.dense_ft_fmexp(result, multiplier.data, exponent.data, out_basis,
+                              multiplier_depth=multiplier.basis.depth, exponent_depth=exponent.basis.depth)
 
     return FreeTensor(result, out_basis)
 
@@ -333,7 +341,8 @@ def ft_adjoint_left_mul(op: FreeTensor, arg: ShuffleTensor) -> ShuffleTensor:
     result = np.zeros_like(arg.data)
 
     _internals.dense_ft_adjoint_left_mul(
-        result, op.data, arg.data, op.basis, arg.basis.depth, op.basis.depth, arg.basis.depth)
+        result, op.data, arg.data, _deepest_basis(op.basis, arg.basis),
+        arg.basis.depth, op.basis.depth, arg.basis.depth)
 
     return ShuffleTensor(result, arg.basis)
 
diff --git a/roughpy/compute/_src/dense_basic.cpp b/roughpy/compute/_src/dense_basic.cpp
index 4d8f7f6..562ff16 100644
--- a/roughpy/compute/_src/dense_basic.cpp
+++ b/roughpy/compute/_src/dense_basic.cpp
@@ -314,6 +314,7 @@ PyObject* py_dense_antipode(
                 &out_obj,
                 &arg_obj,
                 &basis_obj,
+                &degree_bounds[0].max_degree,
                 &degree_bounds[1].max_degree
         )) {
         return nullptr;
@@ -492,7 +493,7 @@ struct DenseSTFma
 PyObject* py_dense_st_fma(PyObject* Py_UNUSED(self), PyObject* args, PyObject* kwargs)
 {
     static constexpr char const* const kwords[] = {
-        "out", "lhs", "rhs", "basis", nullptr
+        "out", "lhs", "rhs", "basis", "out_depth", "lhs_depth", "rhs_depth", nullptr
     };
 
     PyObject* out_obj, *lhs_obj, *rhs_obj;
@@ -502,12 +503,15 @@ PyObject* py_dense_st_fma(PyObject* Py_UNUSED(self), PyObject* args, PyObject* k
 
     if (!PyArg_ParseTupleAndKeywords(
         args, kwargs,
-        "OOOO",
+        "OOOO|iii",
         RPY_PY_KWORD_CAST(kwords),
         &out_obj,
         &lhs_obj,
         &rhs_obj,
-        &basis_obj
+        &basis_obj,
+        &degree_bounds[0].max_degree,
+        &degree_bounds[1].max_degree,
+        &degree_bounds[2].max_degree
         )) {
         return nullptr;
     }
diff --git a/roughpy/compute/_src/dense_intermediate.cpp b/roughpy/compute/_src/dense_intermediate.cpp
index f2743cb..ea4e355 100644
--- a/roughpy/compute/_src/dense_intermediate.cpp
+++ b/roughpy/compute/_src/dense_intermediate.cpp
@@ -49,8 +49,8 @@ struct DenseFTExp {
         DenseTensorView<ArgIter> arg(
                 arg_iter,
                 *basis,
-                config_->degree_bounds[0].min_degree,
-                config_->degree_bounds[0].max_degree
+                config_->degree_bounds[1].min_degree,
+                config_->degree_bounds[1].max_degree
         );
 
         intermediate::ft_exp(out, arg);
@@ -134,14 +134,14 @@ struct FtFMExp {
         DenseTensorView<AIter> a(
                 a_iter,
                 *basis,
-                config_->degree_bounds[0].min_degree,
-                config_->degree_bounds[0].max_degree
+                config_->degree_bounds[1].min_degree,
+                config_->degree_bounds[1].max_degree
         );
         DenseTensorView<XIter> x(
                 x_iter,
                 *basis,
-                config_->degree_bounds[0].min_degree,
-                config_->degree_bounds[0].max_degree
+                config_->degree_bounds[2].min_degree,
+                config_->degree_bounds[2].max_degree
         );
 
         intermediate::ft_fmexp(out, a, x);
diff --git a/roughpy_compute/dense/basic/shuffle_tensor_product.hpp b/roughpy_compute/dense/basic/shuffle_tensor_product.hpp
index c67a37d..52f87f7 100644
--- a/roughpy_compute/dense/basic/shuffle_tensor_product.hpp
+++ b/roughpy_compute/dense/basic/shuffle_tensor_product.hpp
@@ -43,7 +43,7 @@ void st_fma(
     out[0] += op(lhs[0] * rhs[0]);
     Index out_size = width;
 
-    for (Degree out_deg = 1; out_deg <= lhs.max_degree(); ++out_deg) {
+    for (Degree out_deg = 1; out_deg <= out.max_degree(); ++out_deg) {
         auto out_level = out.at_level(out_deg);
 
         for (Index i = 0; i < out_size; ++i) {
@@ -74,6 +74,11 @@ void st_fma(
                         rhs_idx
                 );
 
+                if (lhs_degree > lhs.max_degree()
+                    || rhs_degree > rhs.max_degree()) {
+                    continue;
+                }
+
                 auto lhs_level = lhs.at_level(lhs_degree);
                 auto rhs_level = rhs.at_level(rhs_degree);
                 acc += lhs_level[lhs_idx] * rhs_level[rhs_idx];
diff --git a/roughpy_compute/dense/views.hpp b/roughpy_compute/dense/views.hpp
index 37435c9..4876118 100644
--- a/roughpy_compute/dense/views.hpp
+++ b/roughpy_compute/dense/views.hpp
@@ -51,7 +51,7 @@ public:
     constexpr StridedDenseIterator(Iter_ base,
                                    difference_type stride,
                                    difference_type offset) noexcept
-        : base_(base + offset), stride_(stride) {}
+        : base_(base + offset * stride), stride_(stride) {}
 
 
     [[nodiscard]]
-- 
2.43.0


From 3d500a1132472ebb60eab4f49516c5697814d58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:32 +0000
Subject: [PATCH 97/99] fix: check_lie_basis_data accepted data that is no Hall
 basis and read out of range

---
 roughpy/compute/_src/lie_basis.c | 65 +++++++++++++++++++++++++++++---
 1 file changed, 60 insertions(+), 5 deletions(-)

diff --git a/roughpy/compute/_src/lie_basis.c b/roughpy/compute/_src/lie_basis.c
index b35987e..6711381 100644
--- a/roughpy/compute/_src/lie_basis.c
+++ b/roughpy/compute/_src/lie_basis.c
@@ -377,9 +377,9 @@ static int check_data_arrays_basics(
         return 0;
     }
 
-    for (int32_t i = 2; i <= depth; ++i) {
-        if (db_data[i] <= db_data[i - 1]) {
-            LBC_SET_ERR("degree_begin must be strictly increasing");
+    for (int32_t i = 1; i <= depth + 1; ++i) {
+        if (db_data[i] < db_data[i - 1]) {
+            LBC_SET_ERR("degree_begin must be increasing");
             return 0;
         }
     }
@@ -1330,6 +1330,36 @@ PyObject* PyLieBasis_get(int32_t width, int32_t depth)
     return (PyObject*) self;
 }
 
+/**
+ * @brief Get the degree of a Lie key among those of degree below max_degree
+ *
+ * Returns 0 if there is no such key.
+ */
+static int32_t
+lie_key_degree(const npy_intp* db_data, int32_t max_degree, npy_intp key)
+{
+    for (int32_t degree = 1; degree < max_degree; ++degree) {
+        if (key >= db_data[degree] && key < db_data[degree + 1]) {
+            return degree;
+        }
+    }
+    return 0;
+}
+
+static int lie_key_degrees_match(
+        const npy_intp* db_data,
+        int32_t degree,
+        npy_intp left,
+        npy_intp right
+)
+{
+    const int32_t left_degree = lie_key_degree(db_data, degree, left);
+    const int32_t right_degree = lie_key_degree(db_data, degree, right);
+
+    return left_degree > 0 && right_degree > 0
+            && left_degree + right_degree == degree;
+}
+
 static int check_lie_data_standard_ordering(
         PyArrayObject* data_arr,
         PyArrayObject* degree_begin_arr,
@@ -1354,13 +1384,14 @@ static int check_lie_data_standard_ordering(
 
     if (db_data[1] > 0 && (data[0] != 0 || data[1] != 0)) {
         LBC_SET_ERR("first element of data must be the neutral element");
+        return 0;
     }
 
     // If the depth is 0 then there is nothing more we need to do
     if (depth < 1) { return 1; }
 
     for (npy_intp l = db_data[1]; l < db_data[2]; ++l) {
-        if (data[2 * l + 0] != 0 && data[2 * l + 1] != l) {
+        if (data[2 * l + 0] != 0 || data[2 * l + 1] != l) {
             LBC_SET_ERR(
                     "data must contain letters represented as pairs (0, l)"
             );
@@ -1372,6 +1403,17 @@ static int check_lie_data_standard_ordering(
 
         for (npy_intp elt_idx = db_data[degree]; elt_idx < db_data[degree + 1];
              ++elt_idx) {
+            if (!lie_key_degrees_match(
+                        db_data,
+                        degree,
+                        data[2 * elt_idx + 0],
+                        data[2 * elt_idx + 1]
+                )) {
+                LBC_SET_ERR(
+                        "the degrees of k and l must add up to that of [k,l]"
+                );
+                return 0;
+            }
 
             if (major == PLB_Major_Bourbaki) {
 
@@ -1486,13 +1528,14 @@ static int check_lie_data_custom_ordering(
 
     if (db_data[1] > 0 && (data[0] != 0 || data[1] != 0)) {
         LBC_SET_ERR("first element of data must be the neutral element");
+        return 0;
     }
 
     // If the depth is 0 then there is nothing more we need to do
     if (depth < 1) { return 1; }
 
     for (npy_intp l = db_data[1]; l < db_data[2]; ++l) {
-        if (data[2 * l + 0] != 0 && data[2 * l + 1] != l) {
+        if (data[2 * l + 0] != 0 || data[2 * l + 1] != l) {
             LBC_SET_ERR(
                     "data must contain letters represented as pairs (0, l)"
             );
@@ -1504,6 +1547,18 @@ static int check_lie_data_custom_ordering(
 
         for (npy_intp elt_idx = db_data[degree]; elt_idx < db_data[degree + 1];
              ++elt_idx) {
+            if (!lie_key_degrees_match(
+                        db_data,
+                        degree,
+                        data[2 * elt_idx + 0],
+                        data[2 * elt_idx + 1]
+                )) {
+                LBC_SET_ERR(
+                        "the degrees of k and l must add up to that of [k,l]"
+                );
+                return 0;
+            }
+
             if (major == PLB_Major_Bourbaki) {
                 const npy_intp a = data[2 * elt_idx + 0];
                 const npy_intp bc = data[2 * elt_idx + 1];
-- 
2.43.0


From 2a67215163271f0d4e7dcc7b2adc48ffa7eaf4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:40 +0000
Subject: [PATCH 98/99] fix: matrices of a LieBasis in types it cannot compute
 in were uninitialised

---
 roughpy/compute/_src/lie_basis.c | 48 ++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/roughpy/compute/_src/lie_basis.c b/roughpy/compute/_src/lie_basis.c
index 6711381..0cd0037 100644
--- a/roughpy/compute/_src/lie_basis.c
+++ b/roughpy/compute/_src/lie_basis.c
@@ -949,6 +949,29 @@ finish:
     return ret;
 }
 
+/**
+ * @brief Check that matrices can be constructed with the given dtype
+ *
+ * Returns 0 and sets a Python exception if this is not so.
+ */
+static int check_matrix_dtype(PyArray_Descr* dtype)
+{
+    switch (dtype->type_num) {
+        case NPY_FLOAT:
+        case NPY_DOUBLE:
+        case NPY_LONGDOUBLE:
+            if (PyArray_ISNBO(dtype->byteorder)) { return 1; }
+            break;
+        default: break;
+    }
+
+    PyErr_SetString(
+            PyExc_TypeError,
+            "only native float, double and long double types are supported"
+    );
+    return 0;
+}
+
 PyObject* get_l2t_matrix(PyObject* basis, PyObject* dtype_obj)
 {
     if (!PyLieBasis_Check(basis)) {
@@ -965,13 +988,7 @@ PyObject* get_l2t_matrix(PyObject* basis, PyObject* dtype_obj)
     // so set l2t NULL here to make that make sense.
     PyObject* l2t = NULL;
 
-    if (!PyDataType_ISFLOAT(dtype)) {
-        PyErr_SetString(
-                PyExc_TypeError,
-                "only floating point data types are supported"
-        );
-        goto finish;
-    }
+    if (!check_matrix_dtype(dtype)) { goto finish; }
 
     l2t = PyDict_GetItem(self->l2t, (PyObject*) dtype);
     if (l2t) {
@@ -1260,20 +1277,27 @@ PyObject* get_t2l_matrix(PyObject* basis, PyObject* dtype_obj)
     PyArray_Descr* dtype = NULL;
     if (!PyArray_DescrConverter(dtype_obj, &dtype)) { return NULL; }
 
-    PyObject* t2l = PyDict_GetItem(self->t2l, (PyObject*) dtype);
+    // As with l2t, dtype must be decremented on every path from here
+    PyObject* t2l = NULL;
+
+    if (!check_matrix_dtype(dtype)) { goto finish; }
+
+    t2l = PyDict_GetItem(self->t2l, (PyObject*) dtype);
     if (t2l) {
         // We already have it, return the cached t2l map
         Py_INCREF(t2l);
-        return t2l;
+        goto finish;
     }
 
     // construct a new map and insert it into the t2l dict
-    t2l = construct_new_t2l(self, (PyArray_Descr*) dtype);
-    if (t2l == NULL) { return NULL; }
+    t2l = construct_new_t2l(self, dtype);
+    if (t2l == NULL) { goto finish; }
 
-    Py_INCREF(t2l);
+    // SetItem does not steal a reference to dtype or val.
     PyDict_SetItem(self->t2l, (PyObject*) dtype, t2l);
 
+finish:
+    Py_DECREF(dtype);
     return t2l;
 }
 
-- 
2.43.0


From f5cc56498ef8194e31ae93fc3b341993555d5e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:17 +0000
Subject: [PATCH 99/99] fix: tensor_functions.Log failed or was wrong beyond
 depth two

---
 roughpy/tensor_functions.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/roughpy/tensor_functions.py b/roughpy/tensor_functions.py
index d404fb8..c0b2085 100644
--- a/roughpy/tensor_functions.py
+++ b/roughpy/tensor_functions.py
@@ -205,9 +205,16 @@ def _concatenate(a: TensorTensorProduct, otype=rp.FreeTensor):
     :return: tensor obtained by reducing all pairs of words
     """
 
+    word_factory = tensor_word_factory(a.ctx.tensor_basis)
+
+    # The pairs come from _adjoint_of_shuffle, whose words are reversed because
+    # the product of keys joins them in reverse order.
     data = defaultdict(lambda: 0)
     for (l, r), v in a.data.items():
-        data[l * r] += v
+        data[word_factory(*l.to_letters()[::-1], *r.to_letters()[::-1])] += v
+
+    if not data:
+        return otype(ctx=a.ctx)
 
     # noinspection PyArgumentList
     result = otype(data, ctx=a.ctx)
-- 
2.43.0

