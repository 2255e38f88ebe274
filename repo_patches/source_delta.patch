From 55c899337117cc4030defb98efd4f8c2d5a45d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 01/89] fix: read 8 and 16 bit enumerations with their own
 width when converting

---
 include/xtypes/PrimitiveType.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/PrimitiveType.hpp b/include/xtypes/PrimitiveType.hpp
index 2e32a73..5d9c991 100644
--- a/include/xtypes/PrimitiveType.hpp
+++ b/include/xtypes/PrimitiveType.hpp
@@ -171,9 +171,23 @@ protected:
                 *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint16_t*>(source);
                 break;
             case TypeKind::UINT_32_TYPE:
-            case TypeKind::ENUMERATION_TYPE:
                 *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint32_t*>(source);
                 break;
+            case TypeKind::ENUMERATION_TYPE:
+                // The width of an enumeration depends on its associated type
+                if (other.memory_size() == sizeof(uint8_t))
+                {
+                    *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint8_t*>(source);
+                }
+                else if (other.memory_size() == sizeof(uint16_t))
+                {
+                    *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint16_t*>(source);
+                }
+                else
+                {
+                    *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint32_t*>(source);
+                }
+                break;
             case TypeKind::UINT_64_TYPE:
                 *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint64_t*>(source);
                 break;
-- 
2.43.0


From 19247896adc0640ed36ef96cace5df87d81ec4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 02/89] fix: release the target string when moving onto an
 initialized instance

---
 include/xtypes/StringType.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/StringType.hpp b/include/xtypes/StringType.hpp
index 382949b..dedfa0f 100644
--- a/include/xtypes/StringType.hpp
+++ b/include/xtypes/StringType.hpp
@@ -101,9 +101,13 @@ public:
     virtual void move_instance(
             uint8_t* target,
             uint8_t* source,
-            bool) const override
+            bool initialized) const override
     {
-        new (target) std::basic_string<CHAR_T>(std::move(*reinterpret_cast<const std::basic_string<CHAR_T>*>(source)));
+        if (initialized)
+        {
+            destroy_instance(target);
+        }
+        new (target) std::basic_string<CHAR_T>(std::move(*reinterpret_cast<std::basic_string<CHAR_T>*>(source)));
     }
 
     virtual void destroy_instance(
-- 
2.43.0


From c7f613f575772b431866ce996024ad1a6645d0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 03/89] fix: copy the data when a DynamicData is constructed
 from a reference

---
 include/xtypes/DynamicData.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index de5d7fe..5dde67d 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -1332,14 +1332,18 @@ public:
     /// \brief Copy constructor from a ReadableDynamicDataRef
     DynamicData(
             const ReadableDynamicDataRef& other)
-        : WritableDynamicDataRef(other)
+        : WritableDynamicDataRef(other.type(), new uint8_t[other.type().memory_size()])
     {
+        memset(instance_, 0, other.type().memory_size());
+        type_->copy_instance(instance_, p_instance(other));
+        initialize_ = true;
     }
 
-    /// \brief Move constructor from a WritableDynamicDataRef
+    /// \brief Constructor from a WritableDynamicDataRef.
+    /// The reference doesn't own the data that it points to, so the data is copied.
     DynamicData(
             WritableDynamicDataRef&& other)
-        : WritableDynamicDataRef(std::move(other))
+        : DynamicData(static_cast<const ReadableDynamicDataRef&>(other))
     {
     }
 
-- 
2.43.0


From b7a2fc9f2d891b91317b6483a727700b4178322c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 04/89] fix: release the source instance of a moved DynamicData

---
 include/xtypes/DynamicData.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 5dde67d..85a4cae 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -1381,7 +1381,7 @@ public:
     {
         memset(instance_, 0, other.type().memory_size());
         type_->move_instance(instance_, p_instance(other), false);
-        other.initialize_ = false;
+        initialize_ = true;
     }
 
     /// \brief Assignment operator
-- 
2.43.0


From 6efc588ee61b4559b35ef42cbcad967a687e567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 05/89] fix: self-assignment destroyed the instance before
 reading it

---
 include/xtypes/DynamicData.hpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 85a4cae..5529db2 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -819,8 +819,11 @@ public:
     WritableDynamicDataRef& operator = (
             const WritableDynamicDataRef& other)
     {
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, p_instance(other));
+        if (instance_ != p_instance(other)) // Self-assignment has nothing to do
+        {
+            type_->destroy_instance(instance_);
+            type_->copy_instance(instance_, p_instance(other));
+        }
         return *this;
     }
 
@@ -1020,8 +1023,12 @@ public:
                     "Trying to set an invalid value for enumerated type '" << type_->name() << "'.");
         }
 
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, reinterpret_cast<const uint8_t*>(&t));
+        const uint8_t* source = reinterpret_cast<const uint8_t*>(&t);
+        if (instance_ != source) // Self-assignment has nothing to do
+        {
+            type_->destroy_instance(instance_);
+            type_->copy_instance(instance_, source);
+        }
     }
 
     /// \brief Push a primitive or string value into the DynamicData that represents a SequenceType
@@ -1391,8 +1398,11 @@ public:
         xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
                 "Cannot assign DynamicData of type '" << other.type().name() << "' to DynamicData of type '"
                                                       << type_->name() << "'.");
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, p_instance(other));
+        if (instance_ != p_instance(other)) // Self-assignment has nothing to do
+        {
+            type_->destroy_instance(instance_);
+            type_->copy_instance(instance_, p_instance(other));
+        }
         return *this;
     }
 
@@ -1403,8 +1413,11 @@ public:
         xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
                 "Cannot assign DynamicData of type '" << other.type().name() << "' to DynamicData of type '"
                                                       << type_->name() << "'.");
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, p_instance(other));
+        if (instance_ != p_instance(other)) // Self-assignment has nothing to do
+        {
+            type_->destroy_instance(instance_);
+            type_->copy_instance(instance_, p_instance(other));
+        }
         return *this;
     }
 
-- 
2.43.0


From d935877b4476753c6d10fb84b08848a890619f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 06/89] fix: release the reserved instances of a sequence
 before writing them

---
 include/xtypes/SequenceInstance.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 48779ec..b3f4c88 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -152,10 +152,20 @@ public:
     {
         if (memory_ == nullptr || size_ == capacity_)
         {
+            // The value to push could be placed in this sequence
+            bool own = memory_ != nullptr && instance >= memory_ && instance < memory_ + size_ * block_size_;
+            size_t own_offset = own ? size_t(instance - memory_) : 0;
+
             realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
+
+            if (own)
+            {
+                instance = memory_ + own_offset;
+            }
         }
 
         uint8_t* place = memory_ + size_ * block_size_;
+        content_->destroy_instance(place); // All the reserved instances are already constructed
         content_->copy_instance(place, instance);
 
         size_++;
@@ -175,13 +185,7 @@ public:
             return;
         }
 
-        realloc(new_size, bounds);
-
-        for (size_t i = size_; i < new_size; i++)
-        {
-            uint8_t* place = memory_ + i * block_size_;
-            content_->construct_instance(place);
-        }
+        realloc(new_size, bounds); // All the reserved instances are default-initialized
 
         size_ = new_size;
     }
@@ -281,6 +285,7 @@ private:
         {
             for (uint32_t i = 0; i < min_size; i++)
             {
+                content_->destroy_instance(memory_ + i * block_size_); // Already constructed
                 content_->copy_instance_from_type(
                     memory_ + i * block_size_,
                     other.memory_ + i * other_block_size,
-- 
2.43.0


From 307951c9f93c1b4326e2f2c40ce4aa88e62d22c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 07/89] fix: convert collections of primitives of the same size
 but different kind

---
 include/xtypes/ArrayType.hpp        | 2 +-
 include/xtypes/SequenceInstance.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index 62efd0c..2ee7a2c 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -160,7 +160,7 @@ public:
         size_t other_block_size = other_array.content_type().memory_size();
         size_t min_dimension = std::min(dimension_, other_array.dimension_);
 
-        if (content_type().is_constructed_type() || block_size != other_block_size)
+        if (content_type().is_constructed_type() || content_type().kind() != other_array.content_type().kind())
         {
             for (uint32_t i = 0; i < min_dimension; i++)
             {
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index b3f4c88..05e3d1c 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -281,7 +281,7 @@ private:
             realloc(min_size, bounds);
         }
 
-        if (content_->is_constructed_type() || block_size_ != other_block_size)
+        if (content_->is_constructed_type() || content_->kind() != other.content_->kind())
         {
             for (uint32_t i = 0; i < min_size; i++)
             {
-- 
2.43.0


From 25251f6e39a9493de434c1f674159a069de8bde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 08/89] fix: a reference to a temporary DynamicData disarmed
 its destructor

---
 include/xtypes/DynamicData.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 5529db2..084796d 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -68,12 +68,12 @@ public:
 
     ReadableDynamicDataRef(const ReadableDynamicDataRef& other) = default;
 
+    // The moved object could be a (temporary) DynamicData, which must still destroy its instance.
     ReadableDynamicDataRef(ReadableDynamicDataRef&& other)
-        : type_(std::move(other.type_))
+        : type_(other.type_)
         , instance_(other.instance_)
         , initialize_(other.initialize_)
     {
-        other.initialize_ = false;
     }
 
     virtual ~ReadableDynamicDataRef() = default;
-- 
2.43.0


From 6eddd632080be0470e11ffe5b13466a2da447ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 09/89] fix: construct the elements left when an array is
 copied from a shorter one

---
 include/xtypes/ArrayType.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index 2ee7a2c..3cf989e 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -174,6 +174,11 @@ public:
         {
             std::memcpy(target, source, min_dimension * block_size);
         }
+
+        for (size_t i = min_dimension; i < dimension_; i++) // Elements without a counterpart
+        {
+            content_type().construct_instance(target + i * block_size);
+        }
     }
 
     virtual void move_instance(
-- 
2.43.0


From 1649a4b16d29bd11b363b091d38c936edd68a089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 10/89] fix: hash a sequence by its elements

---
 include/xtypes/SequenceType.hpp | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/include/xtypes/SequenceType.hpp b/include/xtypes/SequenceType.hpp
index 84500a0..ca25cae 100644
--- a/include/xtypes/SequenceType.hpp
+++ b/include/xtypes/SequenceType.hpp
@@ -234,24 +234,13 @@ public:
     virtual uint64_t hash(
             const uint8_t* c_instance) const override
     {
-        if (bounds() > 0)
+        const SequenceInstance& sequence = *reinterpret_cast<const SequenceInstance*>(c_instance);
+        uint64_t h = sequence.size();
+        for (uint32_t i = 0; i < sequence.size(); ++i)
         {
-            uint8_t* instance = const_cast<uint8_t*>(c_instance);
-            if (content_type().is_constructed_type())
-            {
-                uint64_t h = content_type().hash(instance);
-                for (size_t i = 1; i < bounds(); ++i)
-                {
-                    Instanceable::hash_combine(h, content_type().hash(get_instance_at(instance, i)));
-                }
-                return h;
-            }
-            else
-            {
-                return Instanceable::hash(instance);
-            }
+            Instanceable::hash_combine(h, content_type().hash(sequence[i]));
         }
-        return 0;
+        return h;
     }
 
 protected:
-- 
2.43.0


From a406b580b69a39a6dda9b51ea71ad5f991213204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 11/89] fix: hash the selected member of a union

---
 include/xtypes/UnionType.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 65ba758..47f4184 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -451,9 +451,10 @@ public:
             const uint8_t* instance) const override
     {
         uint64_t h = disc()->type().hash(instance);
-        if (0 < labels_.count(h))
+        int64_t label = current_label(disc()->type(), instance);
+        if (0 < labels_.count(label))
         {
-            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(h)));
+            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
             Instanceable::hash_combine(h, member->type().hash(instance + member->offset()));
         }
         return h;
-- 
2.43.0


From 5a8cc4e614202eb9bda170041bf8c54c787e72c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 12/89] fix: compare and hash floating point elements by value
 instead of by bytes

---
 include/xtypes/ArrayType.hpp        |  4 ++--
 include/xtypes/DynamicType.hpp      |  8 ++++++++
 include/xtypes/PrimitiveType.hpp    | 10 ++++++++++
 include/xtypes/SequenceInstance.hpp |  2 +-
 4 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index 3cf989e..1c331bf 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -218,7 +218,7 @@ public:
             const uint8_t* other_instance) const override
     {
         size_t block_size = content_type().memory_size();
-        if (content_type().is_constructed_type())
+        if (content_type().is_constructed_type() || content_type().is_floating_point_type())
         {
             bool comp = true;
             for (uint32_t i = 0; i < dimension_; i++)
@@ -305,7 +305,7 @@ public:
         if (dimension_ > 0)
         {
             uint8_t* instance = const_cast<uint8_t*>(c_instance);
-            if (content_type().is_constructed_type())
+            if (content_type().is_constructed_type() || content_type().is_floating_point_type())
             {
                 uint64_t h = content_type().hash(instance);
                 for (size_t i = 1; i < dimension_; ++i)
diff --git a/include/xtypes/DynamicType.hpp b/include/xtypes/DynamicType.hpp
index fa633d8..d24295c 100644
--- a/include/xtypes/DynamicType.hpp
+++ b/include/xtypes/DynamicType.hpp
@@ -86,6 +86,14 @@ public:
         return (kind_& TypeKind::CONSTRUCTED_TYPE) != TypeKind::NO_TYPE;
     }
 
+    /// \brief check if this type is a floating point
+    /// Equal floating point values may differ in their bytes (0.0 and -0.0, padding), and vice versa (NaN).
+    /// \returns true if is a floating point
+    bool is_floating_point_type() const
+    {
+        return kind_ == TypeKind::FLOAT_32_TYPE || kind_ == TypeKind::FLOAT_64_TYPE || kind_ == TypeKind::FLOAT_128_TYPE;
+    }
+
     /// \brief check if this type is enumerated
     /// (has the corresponding bit of TypeKind::ENUMERATED_TYPE in its kind).
     /// \returns true if is enumerated
diff --git a/include/xtypes/PrimitiveType.hpp b/include/xtypes/PrimitiveType.hpp
index 5d9c991..3340bd8 100644
--- a/include/xtypes/PrimitiveType.hpp
+++ b/include/xtypes/PrimitiveType.hpp
@@ -275,6 +275,16 @@ protected:
         return consistency;
     }
 
+    virtual uint64_t hash(
+            const uint8_t* instance) const override
+    {
+        if (std::is_floating_point<T>::value) // Equal values may have different bytes
+        {
+            return std::hash<T>()(*reinterpret_cast<const T*>(instance));
+        }
+        return Instanceable::hash(instance);
+    }
+
     virtual void for_each_instance(
             const InstanceNode& node,
             InstanceVisitor visitor) const override
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 05e3d1c..faf3b02 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -122,7 +122,7 @@ public:
             return false;
         }
 
-        if (content_->is_constructed_type())
+        if (content_->is_constructed_type() || content_->is_floating_point_type())
         {
             bool comp = true;
             for (uint32_t i = 0; i < size_; i++)
-- 
2.43.0


From bf2ffda1b2ae2e4bd1bf5e707e3ae5089e599801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 13/89] fix: identify the keys of a map by their value, not
 only by their hash

---
 include/xtypes/MapInstance.hpp | 106 +++++++++++----------------------
 1 file changed, 34 insertions(+), 72 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 305c0c0..e82216d 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -111,19 +111,17 @@ public:
             return false;
         }
 
-        if (content_->first().is_constructed_type() || content_->second().is_constructed_type())
+        // Keys with the same hash could be stored in different order
+        for (uint32_t i = 0; i < size_; i++)
         {
-            bool comp = true;
-            for (uint32_t i = 0; i < size_; i++)
+            uint8_t* element = get_element(i);
+            uint8_t* other_element = other.find_place(element, true);
+            if (other_element == nullptr || !content_->compare_instance(element, other_element))
             {
-                comp &= content_->compare_instance(memory_ + i * block_size_, other.memory_ + i * block_size_);
+                return false;
             }
-            return comp;
-        }
-        else //optimization when the pair are both primitive
-        {
-            return std::memcmp(memory_, other.memory_, size_ * block_size_) == 0;
         }
+        return true;
     }
 
     virtual ~MapInstance()
@@ -194,16 +192,12 @@ public:
 
     uint64_t map_hash() const
     {
-        if (size_ > 0)
+        uint64_t h = 0;
+        for (uint32_t i = 0; i < size_; ++i)
         {
-            uint64_t h = content_->hash(memory_);
-            for (uint32_t i = 1; i < size_; ++i)
-            {
-                Instanceable::hash_combine(h, content_->hash(get_element(i)));
-            }
-            return h;
+            h += content_->hash(get_element(i)); // Keys with the same hash could be stored in different order
         }
-        return 0;
+        return h;
     }
 
 private:
@@ -312,7 +306,7 @@ private:
                 if (overlap && check_overlap(target, source))
                 {
                     // Creating a place
-                    uint32_t to_move = size_ - get_key_index(source);
+                    uint32_t to_move = size_ - get_position(source);
                     for (uint32_t i = to_move; i > 0; --i)
                     {
                         content_->move_instance(target + (i - 1) * block_size_, source + (i - 1) * block_size_, true);
@@ -329,7 +323,7 @@ private:
             }
             else //optimization when the pair are both primitive
             {
-                std::memmove(target, source, (size_ - get_key_index(source)) * block_size_);
+                std::memmove(target, source, (size_ - get_position(source)) * block_size_);
             }
         }
     }
@@ -349,7 +343,7 @@ private:
         xtypes_assert(
             size_ == 0 ||
             place == get_element(size_) ||     // Insert at the end
-            hash(instance) != hash(place),
+            !content_->first().compare_instance(instance, place),
             "Key already exists.");
         if (place != get_element(size_))
         {
@@ -362,71 +356,33 @@ private:
             const uint8_t* instance,
             bool exact = false) const
     {
-        uint64_t instance_hash = 0;
-        // Special case, it is empty
-        if (size_ == 0)
+        // Binary search of the first element which hash isn't less than the requested
+        uint64_t instance_hash = hash(instance);
+        uint32_t first = 0;
+        uint32_t last = size_;
+        while (first < last)
         {
-            if (exact)
+            uint32_t current = first + (last - first) / 2;
+            if (hash(get_element(current)) < instance_hash)
             {
-                return nullptr;
+                first = current + 1;
             }
             else
             {
-                return memory_;
+                last = current;
             }
         }
 
-        // Binary search by hash
-        uint64_t istart = 0;
-        uint64_t iend = size_;
-        uint64_t icurrent = (istart + iend) / 2;
-        uint8_t* start = get_element(0);
-        uint8_t* end = get_element(size_);
-        uint8_t* current = get_element(icurrent);
-
-        instance_hash = hash(instance);
-        uint64_t current_hash = hash(current);
-
-        while (icurrent != istart)
+        // Different keys could share the hash
+        for (; first < size_ && hash(get_element(first)) == instance_hash; ++first)
         {
-            if (instance_hash == current_hash)
-            {
-                return current;
-            }
-            else if (instance_hash > current_hash)
+            if (content_->first().compare_instance(instance, get_element(first)))
             {
-                if (current == start)
-                {
-                    // The spot is "end"
-                    current = end;
-                    continue;
-                }
-                start = current;
-                istart = icurrent;
+                return get_element(first);
             }
-            else
-            {
-                end = current;
-                iend = icurrent;
-            }
-
-            icurrent = (istart + iend) / 2;
-            current = get_element(icurrent);
-            current_hash = hash(current);
         }
 
-        if (instance_hash == current_hash)
-        {
-            return current;
-        }
-        else if (instance_hash < current_hash)
-        {
-            return exact ? nullptr : current;
-        }
-        else
-        {
-            return exact ? nullptr : end;
-        }
+        return exact ? nullptr : get_element(first);
     }
 
     uint8_t* get_element(
@@ -435,6 +391,12 @@ private:
         return memory_ + index * block_size_;
     }
 
+    uint32_t get_position(
+            const uint8_t* element) const
+    {
+        return uint32_t((element - memory_) / block_size_);
+    }
+
     size_t get_key_index(
             const uint8_t* instance) const
     {
-- 
2.43.0


From f9366cceb9809477b5fee3af1018352d658a39de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 14/89] fix: insert the value of the pair and release the
 reserved instances of a map before writing them

---
 include/xtypes/DynamicData.hpp |  2 +-
 include/xtypes/MapInstance.hpp | 40 +++++++++++++++++++++++++++++++---
 include/xtypes/MapType.hpp     | 17 +++++++++++++++
 3 files changed, 55 insertions(+), 4 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 084796d..59c075f 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -979,7 +979,7 @@ public:
 
         const MapType& map = static_cast<const MapType&>(*type_);
         xtypes_assert(map.content_type().is_compatible(data.type()) == TypeConsistency::EQUALS, "Types doesn't match");
-        return map.insert_instance(instance_, p_instance(data)) != nullptr;
+        return map.insert_pair_instance(instance_, p_instance(data)) != nullptr;
     }
 
     /// \brief checks if a key is contained in the map represented by the DynamicData.
diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index e82216d..90be31f 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -17,6 +17,7 @@
 #ifndef EPROSIMA_XTYPES_MAP_INSTANCE_HPP_
 #define EPROSIMA_XTYPES_MAP_INSTANCE_HPP_
 
+#include <vector>
 #include <xtypes/PairType.hpp>
 
 #include <cstdint>
@@ -138,20 +139,52 @@ public:
             const uint8_t* instance,
             uint32_t bounds)
     {
+        xtypes_assert(!contains_key(instance), "Key already exists.");
+
+        // The key could be placed in this map, so it must be kept while the memory is being reorganized.
+        const DynamicType& first = content_->first();
+        const DynamicType& second = content_->second();
+        std::vector<uint8_t> key(first.memory_size(), 0);
+        first.copy_instance(key.data(), instance);
+
         if (memory_ == nullptr || size_ == capacity_)
         {
             realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
         }
 
-        uint8_t* place = create_place(instance);
-        content_->first().copy_instance(place, instance);
-        content_->second().construct_instance(place + content_->first().memory_size());
+        // All the reserved instances are already constructed
+        uint8_t* place = create_place(key.data());
+        first.move_instance(place, key.data(), true);
+        first.destroy_instance(key.data());
+        second.destroy_instance(place + first.memory_size());
+        second.construct_instance(place + first.memory_size());
 
         size_++;
 
         return place;
     }
 
+    /// \brief Inserts a pair instance (key and value) into the map, allocating the needed space.
+    /// \param[in] instance Instance of the pair to insert into the map.
+    /// \returns Returns the location of the new instance added.
+    uint8_t* insert_pair(
+            const uint8_t* instance,
+            uint32_t bounds)
+    {
+        const DynamicType& second = content_->second();
+        size_t key_size = content_->first().memory_size();
+
+        // The pair could be placed in this map, so its value must be kept while the memory is being reorganized.
+        std::vector<uint8_t> value(second.memory_size(), 0);
+        second.copy_instance(value.data(), instance + key_size);
+
+        uint8_t* place = insert(instance, bounds);
+        second.move_instance(place + key_size, value.data(), true);
+        second.destroy_instance(value.data());
+
+        return place;
+    }
+
     /// \brief Key access operator.
     /// \param[in] key_instance Requested key
     /// \returns The pair instance with the key.
@@ -281,6 +314,7 @@ private:
         {
             for (uint32_t i = 0; i < min_size; i++)
             {
+                content_->destroy_instance(memory_ + i * block_size_); // Already constructed
                 content_->copy_instance_from_type(
                     memory_ + i * block_size_,
                     other.memory_ + i * other.content_->memory_size(),
diff --git a/include/xtypes/MapType.hpp b/include/xtypes/MapType.hpp
index d6bf866..a255066 100644
--- a/include/xtypes/MapType.hpp
+++ b/include/xtypes/MapType.hpp
@@ -233,6 +233,23 @@ public:
         return nullptr;
     }
 
+    /// \brief Push a pair (key and value) to a map instance.
+    /// \param[in, out] instance Memory instance representing a MapInstance.
+    /// \param[in] pair_instance new pair to add into the map.
+    /// \returns a instance location representing the new pair added
+    /// or nullptr if the map reach the limit or the key already exists.
+    uint8_t* insert_pair_instance(
+            uint8_t* instance,
+            const uint8_t* pair_instance) const
+    {
+        MapInstance& map = *reinterpret_cast<MapInstance*>(instance);
+        if ((map.size() < bounds() || bounds() == 0) && !map.contains_key(pair_instance))
+        {
+            return map.insert_pair(pair_instance, bounds());
+        }
+        return nullptr;
+    }
+
     /// \brief checks if a key is contained in the map.
     bool has_key(
             uint8_t* instance,
-- 
2.43.0


From e227be27088a0763d11f7b9d1fd4262c3b5de8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 15/89] fix: convert the content of a map when it is copied
 from a compatible one

---
 include/xtypes/MapInstance.hpp | 22 ++++++++++++++--------
 include/xtypes/MapType.hpp     |  9 +++++++--
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 90be31f..b6be71d 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -17,6 +17,7 @@
 #ifndef EPROSIMA_XTYPES_MAP_INSTANCE_HPP_
 #define EPROSIMA_XTYPES_MAP_INSTANCE_HPP_
 
+#include <algorithm>
 #include <vector>
 #include <xtypes/PairType.hpp>
 
@@ -74,21 +75,26 @@ public:
 
     /// \brief Copy constructor from a MapInstance with other but compatible content.
     /// \param[in] other Map from copy the values.
+    /// \param[in] content Content of the map
     /// \param[in] bounds Max copied elements.
     /// \pre content and other.content compatibles (see dds::core::xtypes::DynamicType::is_compatible())
     MapInstance(
             const MapInstance& other,
+            const PairType& content,
             uint32_t bounds)
-        : content_(other.content_)
-        , block_size_(content_->memory_size())
-        , capacity_(bounds == 0 ? other.capacity_ : std::min(other.capacity_, bounds))
-        , size_(bounds == 0 ? other.size_ : std::min(other.size_, bounds))
+        : MapInstance(content, bounds)
     {
-        init_memory(memory_, capacity_);
-
-        if (memory_ != nullptr)
+        // The converted keys must be placed again, because their hashes may have changed.
+        std::vector<uint8_t> pair(block_size_, 0);
+        for (uint32_t i = 0; i < other.size_ && (bounds == 0 || size_ < bounds); i++)
         {
-            copy_content(other, size_);
+            content_->copy_instance_from_type(pair.data(), other.get_element(i), *other.content_);
+            if (!contains_key(pair.data()))
+            {
+                insert_pair(pair.data(), bounds);
+            }
+            content_->destroy_instance(pair.data());
+            std::fill(pair.begin(), pair.end(), uint8_t(0));
         }
     }
 
diff --git a/include/xtypes/MapType.hpp b/include/xtypes/MapType.hpp
index a255066..69fb5b5 100644
--- a/include/xtypes/MapType.hpp
+++ b/include/xtypes/MapType.hpp
@@ -111,11 +111,16 @@ public:
 
         xtypes_assert(
             other.kind() == TypeKind::MAP_TYPE
-            && content_type().name() == static_cast<const MapType&>(other).content_type().name(),
+            && (content_type().name() == static_cast<const MapType&>(other).content_type().name()
+            || content_type().is_compatible(static_cast<const MapType&>(other).content_type())
+            == TypeConsistency::EQUALS),
             "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
 
         (void) other;
-        new (target) MapInstance(*reinterpret_cast<const MapInstance*>(source), bounds());
+        new (target) MapInstance(
+            *reinterpret_cast<const MapInstance*>(source),
+            static_cast<const PairType&>(content_type()),
+            bounds());
     }
 
     virtual void move_instance(
-- 
2.43.0


From daa13df051476bbe48dcd04339314906784c468f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 16/89] fix: release the memory of a DynamicData when its
 construction from other type fails

---
 include/xtypes/DynamicData.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 59c075f..c30d607 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -1361,7 +1361,7 @@ public:
     DynamicData(
             const ReadableDynamicDataRef& other,
             const DynamicType& type)
-        : WritableDynamicDataRef(type, new uint8_t[type.memory_size()])
+        : DynamicData(type, new uint8_t[type.memory_size()])
     {
         xtypes_assert(type_->is_compatible(other.type()) != TypeConsistency::NONE,
                 "Incompatible types in DynamicData(const ReadableDynamicDataRef&, const DynamicType&): '"
@@ -1620,6 +1620,18 @@ public:
         return WritableDynamicDataRef(*this);
     }
 
+private:
+
+    /// \brief Delegated constructor: owns a memory in which the instance is not constructed yet.
+    /// From here, the memory will be released although the constructor that delegates on it fails.
+    DynamicData(
+            const DynamicType& type,
+            uint8_t* memory)
+        : WritableDynamicDataRef(type, memory)
+    {
+        initialize_ = false;
+    }
+
 };
 
 /// \brief Ostream operator overload.
-- 
2.43.0


From edef1ebdd0b00a5d6f1ea6499b5e4c386ac531a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 17/89] fix: copy, move, convert and label a union following
 its selected member

---
 include/xtypes/UnionType.hpp | 188 +++++++++++++++++++++++------------
 1 file changed, 126 insertions(+), 62 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 47f4184..0d5f2b1 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -21,6 +21,7 @@
 #include <xtypes/AggregationType.hpp>
 #include <xtypes/AliasType.hpp>
 #include <xtypes/EnumerationType.hpp>
+#include <xtypes/StructType.hpp>
 #include <xtypes/StringConversion.hpp>
 
 #include <string>
@@ -274,44 +275,63 @@ public:
             const uint8_t* source) const override
     {
         disc()->type().copy_instance(target, source);
-        int64_t label = current_label(disc()->type(), source);
-        xtypes_assert(labels_.count(label) != 0, "Stored label in source is invalid");
-        Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
-        member->type().copy_instance(target + member->offset(), source + member->offset());
+        const Member* member = selected_member(source);
+        if (member != nullptr)
+        {
+            member->type().copy_instance(target + member->offset(), source + member->offset());
+        }
     }
 
     virtual void copy_instance_from_type(
             uint8_t* target,
             const uint8_t* source,
-            const DynamicType& other) const override
+            const DynamicType& arg_other) const override
     {
-        if (other.kind() == TypeKind::ALIAS_TYPE)
-        {
-            [[maybe_unused]] const AliasType& alias = static_cast<const AliasType&>(other);
+        const DynamicType& other = (arg_other.kind() == TypeKind::ALIAS_TYPE)
+                ? static_cast<const AliasType&>(arg_other).rget()
+                : arg_other;
 
-            xtypes_assert(alias.rget().kind() == TypeKind::UNION_TYPE,
-                    "Cannot copy data from different types: From '" << alias.rget().name() << "' to '" << name() <<
-                    "'.");
-        }
-        else
+        if (other.kind() == TypeKind::STRUCTURE_TYPE)
         {
-            xtypes_assert(other.kind() == TypeKind::UNION_TYPE,
-                    "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
+            // Resolve one-member struct compatibility
+            const StructType& struct_type = static_cast<const StructType&>(other);
+            if (struct_type.members().size() == 1)
+            {
+                copy_instance_from_type(target, source, struct_type.members().at(0).type());
+                return;
+            }
         }
+
+        xtypes_assert(other.kind() == TypeKind::UNION_TYPE,
+                "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
+
         const UnionType& other_union = static_cast<const UnionType&>(other);
+        const Member* other_member = other_union.selected_member(source);
 
-        Member* disc_ = disc();
-        disc_->type().copy_instance_from_type(target, source, other_union.disc()->type());
+        // The members are matched by their position, as their compatibility is checked in the same way.
+        size_t index = (other_member != nullptr) ? other_union.case_index(*other_member) : 0;
+        if (other_member == nullptr || index >= members().size())
+        {
+            construct_instance(target);
+            return;
+        }
 
-        int64_t label = current_label(disc_->type(), target);
-        if (0 < labels_.count(label))
+        // The discriminator value is kept while it selects the same member.
+        const Member& member = AggregationType::member(index);
+        int64_t label = shrink_label(
+            current_label(other_union.disc()->type(), source),
+            disc()->type().memory_size());
+        if (member_of_label(label) != &member)
         {
-            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
-            member->type().copy_instance_from_type(
-                target + member->offset(),
-                source + member->offset(),
-                member->type());
+            label = label_of_member(member);
         }
+
+        disc()->type().construct_instance(target);
+        current_label(target, label);
+        member.type().copy_instance_from_type(
+            target + member.offset(),
+            source + other_member->offset(),
+            other_member->type());
     }
 
     virtual void move_instance(
@@ -319,26 +339,29 @@ public:
             uint8_t* source,
             bool initialized) const override
     {
-        disc()->type().move_instance(target, source, initialized);
-        int64_t label = current_label(disc()->type(), target);
-        if (0 < labels_.count(label))
+        if (initialized)
+        {
+            // The member selected in target can differ from the one selected in source.
+            destroy_instance(target);
+        }
+
+        disc()->type().move_instance(target, source, false);
+        const Member* member = selected_member(source);
+        if (member != nullptr)
         {
-            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
-            member->type().move_instance(target + member->offset(),
-                    source + member->offset(), initialized);
+            member->type().move_instance(target + member->offset(), source + member->offset(), false);
         }
     }
 
     virtual void destroy_instance(
             uint8_t* instance) const override
     {
-        disc()->type().destroy_instance(instance);
-        int64_t label = current_label(disc()->type(), instance);
-        if (0 < labels_.count(label))
+        const Member* member = selected_member(instance);
+        if (member != nullptr)
         {
-            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
             member->type().destroy_instance(instance + member->offset());
         }
+        disc()->type().destroy_instance(instance);
     }
 
     virtual bool compare_instance(
@@ -349,10 +372,9 @@ public:
 
         if (result)
         {
-            int64_t label = current_label(disc()->type(), instance);
-            if (0 < labels_.count(label))
+            const Member* member = selected_member(instance);
+            if (member != nullptr)
             {
-                Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
                 // Compare active members
                 result = result
                         && member->type().compare_instance(instance + member->offset(),
@@ -422,9 +444,9 @@ public:
     {
         int64_t disc_value = current_label(disc()->type(), node.instance);
 
-        xtypes_assert(0 < labels_.count(disc_value),
+        const Member* member = selected_member(node.instance);
+        xtypes_assert(member != nullptr,
                 "UnionType '" << name() << "' doesn't have a case member selected.");
-        Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(disc_value)));
         visitor(node);
         InstanceNode child(
             node,
@@ -451,10 +473,9 @@ public:
             const uint8_t* instance) const override
     {
         uint64_t h = disc()->type().hash(instance);
-        int64_t label = current_label(disc()->type(), instance);
-        if (0 < labels_.count(label))
+        const Member* member = selected_member(instance);
+        if (member != nullptr)
         {
-            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
             Instanceable::hash_combine(h, member->type().hash(instance + member->offset()));
         }
         return h;
@@ -855,23 +876,25 @@ protected:
             uint8_t* instance,
             int64_t value) const
     {
-        if (labels_.count(value) == 0 &&
-                default_ == invalid_value_)
+        value = shrink_label(value, disc()->type().memory_size());
+        const Member* new_member = member_of_label(value);
+        if (new_member == nullptr)
         {
             return false;
         }
 
-        // Retrieve current label.
-        int64_t current_value = current_label(disc()->type(), instance);
-
-        if (0 < labels_.count(current_value) &&
-                0 != labels_.at(current_value).compare(labels_.at(
-                    value)))
+        const Member* current_member = selected_member(instance);
+        if (current_member != nullptr && current_member != new_member)
         {
             xtypes_assert(false, "Cannot switch member using direct disciminator value.");
             return false;
         }
 
+        if (current_member == nullptr)
+        {
+            new_member->type().construct_instance(instance + new_member->offset());
+        }
+
         current_label(instance, value);
         return true;
     }
@@ -886,8 +909,11 @@ protected:
             Member* member = &const_cast<Member&>(AggregationType::member(pair.second));
             if (member->name() == case_member_name)
             {
-                activate_member(instance, member);
-                current_label(instance, pair.first);
+                if (selected_member(instance) != member) // Keep the label if it's already selected
+                {
+                    activate_member(instance, member);
+                    current_label(instance, pair.first);
+                }
                 return true;
             }
         }
@@ -912,32 +938,70 @@ protected:
     Member& get_current_selection(
             uint8_t* instance)
     {
-        int64_t label = current_label(disc()->type(), instance);
-        xtypes_assert(0 < labels_.count(label), "UnionType '" << name() << "' doesn't have a case member selected.");
-        Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
-        return *member;
+        const Member* member = selected_member(instance);
+        xtypes_assert(member != nullptr, "UnionType '" << name() << "' doesn't have a case member selected.");
+        return const_cast<Member&>(*member);
     }
 
     /// \brief This method allows to retrieve the current selected case member (const).
     const Member& get_current_selection(
             const uint8_t* instance) const
     {
-        int64_t label = current_label(disc()->type(), instance);
-        xtypes_assert(0 < labels_.count(label), "UnionType '" << name() << "' doesn't have a case member selected.");
-        Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
+        const Member* member = selected_member(instance);
+        xtypes_assert(member != nullptr, "UnionType '" << name() << "' doesn't have a case member selected.");
         return *member;
     }
 
+    /// \brief This method returns the member selected by a label, or nullptr if there isn't any.
+    /// The labels without a member select the default one, if exists.
+    const Member* member_of_label(
+            int64_t label) const
+    {
+        auto it = labels_.find(label);
+        if (it == labels_.end())
+        {
+            it = labels_.find(default_);
+        }
+        return (it != labels_.end()) ? &AggregationType::member(it->second) : nullptr;
+    }
+
+    /// \brief This method returns the current selected member, or nullptr if there isn't any.
+    const Member* selected_member(
+            const uint8_t* instance) const
+    {
+        return member_of_label(current_label(disc()->type(), instance));
+    }
+
+    /// \brief This method returns the position of a member of this union.
+    size_t case_index(
+            const Member& member) const
+    {
+        return static_cast<size_t>(&member - members().data());
+    }
+
+    /// \brief This method returns the first label that selects the member.
+    int64_t label_of_member(
+            const Member& member) const
+    {
+        for (const auto& pair : labels_)
+        {
+            if (pair.second == member.name())
+            {
+                return pair.first;
+            }
+        }
+        return invalid_value_;
+    }
+
     /// \brief This method destroys previous active member, if any, and constructs the new one,
     /// setting it as active.
     void activate_member(
             uint8_t* instance,
             Member* member)
     {
-        int64_t label = current_label(disc()->type(), instance);
-        if (0 < labels_.count(label))
+        const Member* active_member = selected_member(instance);
+        if (active_member != nullptr)
         {
-            Member* active_member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
             if (active_member == member)
             {
                 return;
-- 
2.43.0


From 398873f5d550cefcfe99701f8fad0c390af64f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 18/89] fix: use the width of the enumeration in the
 discriminator of a union

---
 include/xtypes/UnionType.hpp | 89 +++++++++++++++++++++++++++++-------
 1 file changed, 72 insertions(+), 17 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 0d5f2b1..b7d12c5 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -522,6 +522,62 @@ protected:
         return result;
     }
 
+    /// \brief Returns the label stored as an enumeration. Its width depends on its associated type.
+    int64_t enumeration_label(
+            const DynamicType& type,
+            const uint8_t* instance) const
+    {
+        switch (type.memory_size())
+        {
+            case sizeof(uint8_t):
+                return *instance;
+            case sizeof(uint16_t):
+                return *reinterpret_cast<const uint16_t*>(instance);
+            default:
+                return *reinterpret_cast<const uint32_t*>(instance);
+        }
+    }
+
+    /// \brief Checks if the label is a value of the enumeration.
+    bool is_enumeration_label(
+            const DynamicType& type,
+            int64_t label) const
+    {
+        switch (type.memory_size())
+        {
+            case sizeof(uint8_t):
+                return static_cast<const EnumeratedType<uint8_t>&>(type).is_allowed_value(
+                    static_cast<uint8_t>(label));
+            case sizeof(uint16_t):
+                return static_cast<const EnumeratedType<uint16_t>&>(type).is_allowed_value(
+                    static_cast<uint16_t>(label));
+            default:
+                return static_cast<const EnumeratedType<uint32_t>&>(type).is_allowed_value(
+                    static_cast<uint32_t>(label));
+        }
+    }
+
+    /// \brief Returns the value of an enumerator, given the enumeration or an alias of it.
+    uint32_t enumerator_value(
+            const DynamicType& type,
+            const std::string& enumerator) const
+    {
+        if (type.kind() == TypeKind::ALIAS_TYPE)
+        {
+            return enumerator_value(static_cast<const AliasType&>(type).rget(), enumerator);
+        }
+
+        switch (type.memory_size())
+        {
+            case sizeof(uint8_t):
+                return static_cast<const EnumeratedType<uint8_t>&>(type).value(enumerator);
+            case sizeof(uint16_t):
+                return static_cast<const EnumeratedType<uint16_t>&>(type).value(enumerator);
+            default:
+                return static_cast<const EnumeratedType<uint32_t>&>(type).value(enumerator);
+        }
+    }
+
     /// \brief This method verifies the validity of a given label.
     void check_label_value(
          [[maybe_unused]] int64_t label)
@@ -537,9 +593,8 @@ protected:
 
         if (type->kind() == TypeKind::ENUMERATION_TYPE)
         {
-            [[maybe_unused]] EnumerationType<uint32_t>* enum_type = static_cast<EnumerationType<uint32_t>*>(type);
             xtypes_assert(
-                enum_type->is_allowed_value(label),
+                is_enumeration_label(*type, label),
                 "Value '" << label << "' isn't allowed by the discriminator enumeration '" << type->name() << "'");
         }
     }
@@ -637,10 +692,7 @@ protected:
             break;
             case TypeKind::ENUMERATION_TYPE:
             {
-                // TODO: If other enumeration types are added, switch again.
-                uint32_t lvalue = *reinterpret_cast<uint32_t*>(label_instance);
-                int64_t new_value = static_cast<int64_t>(lvalue);
-                current_label(instance, new_value);
+                current_label(instance, enumeration_label(type, label_instance));
             }
             break;
             case TypeKind::ALIAS_TYPE:
@@ -750,10 +802,18 @@ protected:
             break;
             case TypeKind::ENUMERATION_TYPE:
             {
-                // TODO: If other enumeration types are added, switch again.
-                uint32_t lvalue = static_cast<uint32_t>(new_value);
-                uint32_t& value = *reinterpret_cast<uint32_t*>(instance);
-                value = lvalue;
+                // The width of an enumeration depends on its associated type
+                switch (disc_->type().memory_size())
+                {
+                    case sizeof(uint8_t):
+                        *reinterpret_cast<uint8_t*>(instance) = static_cast<uint8_t>(new_value);
+                        break;
+                    case sizeof(uint16_t):
+                        *reinterpret_cast<uint16_t*>(instance) = static_cast<uint16_t>(new_value);
+                        break;
+                    default:
+                        *reinterpret_cast<uint32_t*>(instance) = static_cast<uint32_t>(new_value);
+                }
             }
             break;
             case TypeKind::ALIAS_TYPE:
@@ -844,9 +904,7 @@ protected:
             break;
             case TypeKind::ENUMERATION_TYPE:
             {
-                // TODO: If other enumeration types are added, switch again.
-                uint32_t value = *reinterpret_cast<const uint32_t*>(instance);
-                disc_value = shrink_label(value, type.memory_size());
+                disc_value = enumeration_label(type, instance);
             }
             break;
             case TypeKind::ALIAS_TYPE:
@@ -1166,7 +1224,6 @@ protected:
                     break;
                     case TypeKind::ENUMERATION_TYPE:
                     {
-                        // TODO: If other enumeration types are added, switch again.
                         uint32_t value = std::strtoull(label.c_str(), nullptr, base);
                         if (value == 0)
                         {
@@ -1176,9 +1233,7 @@ protected:
                             if (new_s.find("*") != std::string::npos)
                             {
                                 // Get the Enum value
-                                const EnumerationType<uint32_t>& enum_type =
-                                        static_cast<const EnumerationType<uint32_t>&>(disc_->type());
-                                value = enum_type.value(label);
+                                value = enumerator_value(disc_->type(), label);
                             }
                         }
                         result.emplace_back(static_cast<int64_t>(value));
-- 
2.43.0


From ffcfaa1bc06abbfe73670025f48c8eb07413eb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 19/89] fix: check the default and the reserved labels before
 adding a case member

---
 include/xtypes/UnionType.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index b7d12c5..f61d575 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -97,6 +97,7 @@ public:
         static_assert (std::is_integral<T>::value, "Only 'integral' types are allowed.");
         xtypes_assert(is_default || !labels.empty(), "Cannot add a non default case member without labels.");
         xtypes_assert(UNION_DISCRIMINATOR != member.name(), "Case member name 'discriminator' is reserved.");
+        xtypes_assert(!is_default || default_ == invalid_value_, "Cannot set more than one case member as default.");
         // Check labels
         for (T label : labels)
         {
@@ -138,7 +139,6 @@ public:
 
         if (is_default)
         {
-            xtypes_assert(default_ == invalid_value_, "Cannot set more than one case member as default.");
             default_ = first_label;
             if (default_ == default_value_)
             {
@@ -582,7 +582,7 @@ protected:
     void check_label_value(
          [[maybe_unused]] int64_t label)
     {
-        xtypes_assert(label != default_value_, "Label '" << label << "' is reserved.");
+        xtypes_assert(label != default_value_ && label != invalid_value_, "Label '" << label << "' is reserved.");
         DynamicType* type = &const_cast<DynamicType&>(disc()->type());
 
         if (type->kind() == TypeKind::ALIAS_TYPE)
-- 
2.43.0


From 23f800604cd835608a58d37f7970f940e07b50fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 20/89] fix: return the labels of a union with the sign of its
 discriminator

---
 include/xtypes/UnionType.hpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index f61d575..8f28bd5 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -207,7 +207,7 @@ public:
         {
             if (pair.second == member && pair.first != default_value_)
             {
-                result.push_back(pair.first);
+                result.push_back(expand_label(pair.first));
             }
         }
         return result;
@@ -522,6 +522,29 @@ protected:
         return result;
     }
 
+    /// \brief Returns the value of a label with the sign of the discriminator type.
+    int64_t expand_label(
+            int64_t label) const
+    {
+        const DynamicType& type = disc()->type();
+        TypeKind kind = (type.kind() == TypeKind::ALIAS_TYPE)
+                ? static_cast<const AliasType&>(type).rget().kind()
+                : type.kind();
+        switch (kind)
+        {
+            case TypeKind::INT_8_TYPE:
+                return static_cast<int8_t>(label);
+            case TypeKind::INT_16_TYPE:
+                return static_cast<int16_t>(label);
+            case TypeKind::INT_32_TYPE:
+                return static_cast<int32_t>(label);
+            case TypeKind::CHAR_8_TYPE:
+                return static_cast<char>(label);
+            default:
+                return label;
+        }
+    }
+
     /// \brief Returns the label stored as an enumeration. Its width depends on its associated type.
     int64_t enumeration_label(
             const DynamicType& type,
-- 
2.43.0


From f457f7be7e003c66b4a6af071928868a545226d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:23 +0000
Subject: [PATCH 21/89] fix: unions whose labels select different members are
 not equal

---
 include/xtypes/UnionType.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 8f28bd5..263f5e8 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -434,6 +434,11 @@ public:
         {
             consistency |= TypeConsistency::IGNORE_MEMBERS;
         }
+        else if (consistency == TypeConsistency::EQUALS && !has_same_labels(other_union))
+        {
+            // An instance of one of them cannot be used as an instance of the other.
+            consistency |= TypeConsistency::IGNORE_MEMBERS;
+        }
 
         return consistency;
     }
@@ -1060,6 +1065,25 @@ protected:
         return static_cast<size_t>(&member - members().data());
     }
 
+    /// \brief Checks if each label selects the same member position in both unions.
+    bool has_same_labels(
+            const UnionType& other) const
+    {
+        if (labels_.size() != other.labels_.size() || default_ != other.default_)
+        {
+            return false;
+        }
+        for (const auto& pair : labels_)
+        {
+            auto it = other.labels_.find(pair.first);
+            if (it == other.labels_.end() || case_index(member(pair.second)) != other.case_index(other.member(it->second)))
+            {
+                return false;
+            }
+        }
+        return true;
+    }
+
     /// \brief This method returns the first label that selects the member.
     int64_t label_of_member(
             const Member& member) const
-- 
2.43.0


From 9691983e3ebe7f1d57d1fb65393d18e01a5d84c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 22/89] fix: stop at the last member of the source when copying
 a structure from a shorter one

---
 include/xtypes/StructType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/StructType.hpp b/include/xtypes/StructType.hpp
index 6ee3ca1..599b74e 100644
--- a/include/xtypes/StructType.hpp
+++ b/include/xtypes/StructType.hpp
@@ -142,12 +142,12 @@ public:
                     target + member.offset(),
                     source + other_member->offset(),
                     other_member->type());
+                other_member++;
             }
             else
             {
                 member.type().construct_instance(target + member.offset());
             }
-            other_member++;
         }
     }
 
-- 
2.43.0


From 393c9c570b9f27b64c85e4f1daecd2797bab8255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 23/89] fix: booleans and floating point types are not equal to
 other types of their size

---
 include/xtypes/PrimitiveType.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/PrimitiveType.hpp b/include/xtypes/PrimitiveType.hpp
index 3340bd8..ea8b899 100644
--- a/include/xtypes/PrimitiveType.hpp
+++ b/include/xtypes/PrimitiveType.hpp
@@ -262,8 +262,12 @@ protected:
             return TypeConsistency::EQUALS;
         }
 
+        // A boolean or a floating point value cannot be interpreted as another one of the same memory size.
+        bool same_representation = is_floating_point_type() == other.is_floating_point_type()
+                && (kind() == TypeKind::BOOLEAN_TYPE) == (other.kind() == TypeKind::BOOLEAN_TYPE);
+
         TypeConsistency consistency = TypeConsistency::EQUALS;
-        if (memory_size() != other.memory_size())
+        if (memory_size() != other.memory_size() || !same_representation)
         {
             consistency |= TypeConsistency::IGNORE_TYPE_WIDTH;
         }
-- 
2.43.0


From 719e6576e7d96a7b5e66bb58ba503ce4b4bc2950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 24/89] fix: check the type of the data assigned through a
 reference, pushed or used as key

---
 include/xtypes/DynamicData.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index c30d607..35c5917 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -251,6 +251,7 @@ public:
 
         const MapType& map = static_cast<const MapType&>(*type_);
         const PairType& pair = static_cast<const PairType&>(map.content_type());
+        xtypes_assert(pair.first().is_compatible(data.type()) == TypeConsistency::EQUALS, "Key types doesn't match.");
         uint8_t* instance = map.get_instance_at(instance_, data.instance_);
         xtypes_assert(instance != nullptr, "MapType '" << type_->name() << "' doesn't contains the requested key.");
         return ReadableDynamicDataRef(pair.second(), instance + pair.first().memory_size());
@@ -819,6 +820,9 @@ public:
     WritableDynamicDataRef& operator = (
             const WritableDynamicDataRef& other)
     {
+        xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
+                "Cannot assign DynamicData of type '" << other.type().name() << "' to DynamicData of type '"
+                                                      << type_->name() << "'.");
         if (instance_ != p_instance(other)) // Self-assignment has nothing to do
         {
             type_->destroy_instance(instance_);
@@ -945,6 +949,7 @@ public:
 
         const MapType& map = static_cast<const MapType&>(*type_);
         const PairType& pair = static_cast<const PairType&>(map.content_type());
+        xtypes_assert(pair.first().is_compatible(data.type()) == TypeConsistency::EQUALS, "Key types doesn't match.");
         uint8_t* instance = map.get_instance_at(instance_, p_instance(data));
         if (instance == nullptr)
         {
@@ -1066,6 +1071,9 @@ public:
         xtypes_assert(type_->kind() == TypeKind::SEQUENCE_TYPE,
                 "push() is only available for sequence types but called for '" << type_->name() << "'.");
         const SequenceType& sequence = static_cast<const SequenceType&>(*type_);
+        xtypes_assert(sequence.content_type().is_compatible(data.type()) == TypeConsistency::EQUALS,
+                "Expected type '" << sequence.content_type().name()
+                                  << "' but '" << data.type().name() << "' received while pushing data.");
 
         uint8_t* element = sequence.push_instance(instance_, p_instance(data));
         xtypes_assert(element != nullptr, "Bound limit reached while pushing value."); (void) element;
-- 
2.43.0


From 629e191d83964553c6ab00dc5794b087dd480731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:23 +0000
Subject: [PATCH 25/89] fix: copy a structure into a one-member structure that
 contains a compatible one

---
 include/xtypes/StructType.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/StructType.hpp b/include/xtypes/StructType.hpp
index 599b74e..2cfbb1f 100644
--- a/include/xtypes/StructType.hpp
+++ b/include/xtypes/StructType.hpp
@@ -121,7 +121,8 @@ public:
 
         if (members().size() == 1) // Resolve one-member struct compatibility
         {
-            if (other.kind() != TypeKind::STRUCTURE_TYPE)
+            if (other.kind() != TypeKind::STRUCTURE_TYPE
+                    || static_cast<const StructType&>(other).members().size() != 1)
             {
                 members().at(0).type().copy_instance_from_type(target, source, other);
                 return;
-- 
2.43.0


From 2a250398f6354367b7f24d82de56806c034d9496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 26/89] fix: name a multidimensional array as its nested
 equivalent

---
 include/xtypes/ArrayType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index 1c331bf..47e06c2 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -89,7 +89,7 @@ public:
         {
             content_ = DynamicType::Ptr(content);
         }
-        name_ = "array_" + std::to_string(dimension_) + "_" + content.name();
+        name_ = "array_" + std::to_string(dimension_) + "_" + content_->name();
     }
 
     /// \brief Dimension of the array.
-- 
2.43.0


From 837db01eda8fd02281c465c179822539dc12c3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 27/89] fix: as_vector() of an empty collection is an empty
 vector

---
 include/xtypes/DynamicData.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 35c5917..06c9fd4 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -325,6 +325,11 @@ public:
                 "as_vector<" << PrimitiveTypeKindTrait<T>::name << ">() isn't available for type '"
                              << type_->name() << "'.");
 
+        if (size() == 0)
+        {
+            return std::vector<T>();
+        }
+
         const T* location = reinterpret_cast<T*>(collection.get_instance_at(instance_, 0));
         return std::vector<T>(location, location + size());
     }
-- 
2.43.0


From 4ee1ba16393346286e906cbd4c7d8a5d9eed6778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 28/89] fix: convert strings whose characters don't fit exactly
 in the conversion buffer

---
 include/xtypes/StringConversion.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/StringConversion.hpp b/include/xtypes/StringConversion.hpp
index 91d495e..b8b5ebc 100644
--- a/include/xtypes/StringConversion.hpp
+++ b/include/xtypes/StringConversion.hpp
@@ -129,8 +129,13 @@ std::basic_string<out> code_conversion_tool(const std::basic_string_view<in>& in
                 }
                 [[fallthrough]];
             case codecvt_base::partial:
-                // insert current buffer content
-                output.append(buffer, buffer_size);
+                if (to_next == buffer)
+                {
+                    // nothing else can be converted: the input ends with an incomplete character
+                    throw std::range_error("encountered an incomplete character");
+                }
+                // insert current buffer content, the last character may not fit in its remaining space
+                output.append(buffer, to_next - buffer);
                 break;
 
             case codecvt_base::error:
-- 
2.43.0


From 26d0cc84781b2e55e698c75299825303de68c251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 29/89] fix: print wide characters

---
 include/xtypes/DynamicDataImpl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/DynamicDataImpl.hpp b/include/xtypes/DynamicDataImpl.hpp
index 02fd2a6..364aad0 100644
--- a/include/xtypes/DynamicDataImpl.hpp
+++ b/include/xtypes/DynamicDataImpl.hpp
@@ -148,7 +148,10 @@ inline std::string ReadableDynamicDataRef::to_string() const
             case TypeKind::WIDE_CHAR_TYPE:
                 {
                     ss << "<" << type_name << ">  ";
-                    auto aux = code_conversion_tool<XTYPES_CHAR>(std::u16string(1, node.data().value<char16_t>()));
+                    char16_t character = node.data().type().kind() == TypeKind::CHAR_16_TYPE
+                        ? node.data().value<char16_t>()
+                        : static_cast<char16_t>(node.data().value<wchar_t>());
+                    auto aux = code_conversion_tool<XTYPES_CHAR>(std::u16string(1, character));
                     ss << std::string(aux.begin(), aux.end());
                     break;
                 }
-- 
2.43.0


From d68eca796398c80a8ba3c80465b090acf25e7d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 30/89] fix: keep the enumeration type when cloned and don't
 reuse values after the last one

---
 include/xtypes/EnumerationType.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/xtypes/EnumerationType.hpp b/include/xtypes/EnumerationType.hpp
index ad586f2..b1c7e73 100644
--- a/include/xtypes/EnumerationType.hpp
+++ b/include/xtypes/EnumerationType.hpp
@@ -36,6 +36,8 @@ public:
         // New values must be always greater than the previous ones
         xtypes_assert(value >= next_value_,
             "Expected a value greater than " + std::to_string(next_value_) + " but received " + std::to_string(value));
+        xtypes_assert(next_value_ != T() || EnumeratedType<T>::values_.empty(),
+            "There are no values left to be added to the enumeration '" + this->name() + "'.");
         EnumeratedType<T>::insert_enumerator(name, value);
         next_value_ = value + 1;
         return *this;
@@ -71,6 +73,14 @@ public:
     }
 
 protected:
+    std::shared_ptr<DynamicType> clone() const override
+    {
+        auto clon = std::make_shared<EnumerationType>(this->name());
+        clon->values_ = this->values_;
+        clon->next_value_ = next_value_;
+        return clon;
+    }
+
     T next_value_ = T();
 
 };
-- 
2.43.0


From 4f026d1f4b6fef2af685dca1b288191a12647595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 31/89] fix: looking for an unknown submodule inserted an empty
 one

---
 include/xtypes/idl/Module.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 864ff06..2648d1c 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -68,7 +68,8 @@ public:
     std::shared_ptr<Module> submodule(
             const std::string& submodule)
     {
-        return inner_[submodule];
+        auto it = inner_.find(submodule);
+        return it != inner_.end() ? it->second : nullptr;
     }
 
     size_t submodule_size()
@@ -116,7 +117,7 @@ public:
     Module& operator [] (
             const std::string& submodule)
     {
-        return *inner_[submodule];
+        return *inner_.at(submodule);
     }
 
     const Module& operator [] (
-- 
2.43.0


From 6aa490dc57c9769abced44e300f497f131092e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 32/89] fix: solve the scope of the enumerations as in the rest
 of symbols

---
 include/xtypes/idl/Module.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 2648d1c..b6fbe67 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -486,7 +486,13 @@ public:
     bool has_enum_32(
             const std::string& name) const
     {
-        return enumerations_32_.count(name) > 0;
+        // Solve scope
+        PairModuleSymbol module = resolve_scope(name);
+        if (module.first == nullptr)
+        {
+            return false;
+        }
+        return module.first->enumerations_32_.count(module.second) > 0;
     }
 
     const EnumerationType<uint32_t>& enum_32(
-- 
2.43.0


From ef78ba57a8468d7b2fcde63f890153c3ada72049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 33/89] fix: don't rename a type whose insertion in a module is
 rejected

---
 include/xtypes/idl/Module.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index b6fbe67..a222ff1 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -226,6 +226,11 @@ public:
         }
 
         std::string name = struct_type.name();
+        if (structs_.count(name) > 0)
+        {
+            return false; // Already defined, keep its name.
+        }
+
         std::string name_space = scope();
         struct_type.name(name_space + (name_space.empty() ? "" : "::") + name);
         auto result = structs_.emplace(
@@ -310,6 +315,11 @@ public:
         }
 
         std::string name = union_type.name();
+        if (unions_.count(name) > 0)
+        {
+            return false; // Already defined, keep its name.
+        }
+
         std::string name_space = scope();
         union_type.name(name_space + (name_space.empty() ? "" : "::") + name);
         auto result = unions_.emplace(
@@ -585,6 +595,11 @@ public:
             AliasType& alias)
     {
         std::string name = alias.name();
+        if (aliases_.count(name) > 0)
+        {
+            return false; // Already defined, keep its name.
+        }
+
         std::string name_space = scope();
         alias.name(name_space + (name_space.empty() ? "" : "::") + name);
         return aliases_.emplace(name, Type(*this, AliasType(alias))).second;
-- 
2.43.0


From 5c5ff5cbfdb98db473ce87ddfcb4f1b903702d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 34/89] fix: an alias can be defined in a module although an
 outer one has other with its name

---
 include/xtypes/idl/Module.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index a222ff1..52201b5 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -581,7 +581,7 @@ public:
             const DynamicType::Ptr&& type,
             const std::string& name)
     {
-        if (name.find("::") != std::string::npos || has_alias(name))
+        if (name.find("::") != std::string::npos || aliases_.count(name) > 0)
         {
             return false; // Cannot define alias with scoped name (or already defined).
         }
-- 
2.43.0


From 915b1de7efae68bf99d6de1b8b59a7ce443e954c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 35/89] fix: return no type when a name isn't found, and keep
 the one found in a submodule

---
 include/xtypes/idl/Module.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 52201b5..ff55c30 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -625,7 +625,11 @@ public:
         {
             for (auto [key, mod]: inner_)
             {
-                ret_type = mod.get()->type(name, recursive);
+                DynamicType::Ptr inner_type = mod.get()->type(name, recursive);
+                if (inner_type.get() != nullptr)
+                {
+                    ret_type = inner_type;
+                }
             }
         }
 
@@ -660,7 +664,7 @@ public:
             ret_type = module.first->aliases_.at(module.second).get();
         }
 
-        if (name.find("::") == 0)
+        if (name.find("::") == 0 && ret_type.get() != nullptr)
         {
             // Scope ambiguity solver was originally used, add it to the retrieved DynamicType
             ret_type->name(name);
-- 
2.43.0


From 6afa449b022559ae5553d4fee9fd68db8a971870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 36/89] fix: a scoped name isn't solved to a symbol out of its
 scope

---
 include/xtypes/idl/Module.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index ff55c30..f422f26 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -785,7 +785,8 @@ protected:
             return std::make_pair<const Module*, std::string>(this, std::move(name));
         }
 
-        if (outer_ != nullptr)
+        // The name of a scoped symbol must be found in its scope
+        if (outer_ != nullptr && first)
         {
             return outer_->resolve_scope(symbol_name, original_name, true);
         }
-- 
2.43.0


From 52ae86c3685bffb7045e816934a897a3d6b08b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 37/89] fix: iterate the members of data accessed through a
 temporary reference

---
 include/xtypes/DynamicData.hpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 06c9fd4..d242929 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -561,7 +561,6 @@ public:
         MemberIterator(
                 const MemberIterator& it)
             : Iterator (it)
-            , ref_(it.ref_)
         {
         }
 
@@ -591,14 +590,14 @@ public:
         {
             xtypes_assert(type_->is_aggregation_type(),
                     "begin() isn't available for type '" << type_->name() << "'.");
-            return MemberIterator(ref_, false);
+            return MemberIterator(*this, 0);
         }
 
         MemberIterator end() const
         {
             xtypes_assert(type_->is_aggregation_type(),
                     "end() isn't available for type '" << type_->name() << "'.");
-            return MemberIterator(ref_, true);
+            return MemberIterator(*this, static_cast<const AggregationType&>(*type_).members().size());
         }
 
     protected:
@@ -606,16 +605,22 @@ public:
         friend class ReadableDynamicDataRef;
         friend class WritableDynamicDataRef;
 
-        const ReadableDynamicDataRef& ref_;
-
         MemberIterator(
                 const ReadableDynamicDataRef& ref,
                 bool end)
             : Iterator(ref, end)
-            , ref_(ref)
         {
         }
 
+        // The reference from which the iterator was created could be a temporary one, it isn't kept.
+        MemberIterator(
+                const MemberIterator& it,
+                size_t index)
+            : Iterator(it)
+        {
+            index_ = index;
+        }
+
     };
 
     /// \brief Returns an iterable representation of an aggregation dynamic data.
@@ -1229,7 +1234,6 @@ public:
         MemberIterator(
                 const MemberIterator& it)
             : Iterator(it)
-            , ref_(it.ref_)
         {
         }
 
@@ -1257,33 +1261,31 @@ public:
 
         MemberIterator begin()
         {
-            return ReadableDynamicDataRef::MemberIterator(ref_, false);
+            return MemberIterator(*this, 0);
         }
 
         MemberIterator end()
         {
-            return ReadableDynamicDataRef::MemberIterator(ref_, true);
+            return MemberIterator(*this, static_cast<const AggregationType&>(*type_).members().size());
         }
 
     protected:
 
         friend class WritableDynamicDataRef;
 
-        WritableDynamicDataRef& ref_;
-
         MemberIterator(
                 WritableDynamicDataRef& ref,
                 bool end)
             : Iterator(ref, end)
-            , ref_(ref)
         {
         }
 
         MemberIterator(
-                const ReadableDynamicDataRef::MemberIterator& mit)
-            : Iterator (mit)
-            , ref_(static_cast<WritableDynamicDataRef&>(const_cast<ReadableDynamicDataRef&>(mit.ref_)))
+                const MemberIterator& it,
+                size_t index)
+            : Iterator(it)
         {
+            index_ = index;
         }
 
     };
-- 
2.43.0


From 6d2d98aa02e0ff6ad48be0f78b5f11e1f79a8f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 38/89] fix: assign the type of an iterator too

---
 include/xtypes/DynamicData.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index d242929..8a6bf54 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -445,6 +445,7 @@ public:
         Iterator& operator = (
                 const Iterator& other)
         {
+            type_ = other.type_;
             instance_ = other.instance_;
             index_ = other.index_;
             return *this;
-- 
2.43.0


From f2cb9b705898729cca1971202746af4241d814d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 39/89] fix: read the second value of a pair from its own place
 when converting

---
 include/xtypes/PairType.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/PairType.hpp b/include/xtypes/PairType.hpp
index ba59729..9ac883b 100644
--- a/include/xtypes/PairType.hpp
+++ b/include/xtypes/PairType.hpp
@@ -126,7 +126,10 @@ public:
 
         const PairType& pair = static_cast<const PairType&>(other);
         first_->copy_instance_from_type(target, source, pair.first());
-        second_->copy_instance_from_type(target + first_->memory_size(), source + first_->memory_size(), pair.second());
+        second_->copy_instance_from_type(
+            target + first_->memory_size(),
+            source + pair.first().memory_size(),
+            pair.second());
     }
 
     void move_instance(
-- 
2.43.0


From baf62b99f021d9b8b767fc555bd71fe91b4f96fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 40/89] fix: release what was already converted when a
 conversion is refused

---
 include/xtypes/ArrayType.hpp        | 23 +++++++++++++++-----
 include/xtypes/PairType.hpp         | 17 +++++++++++----
 include/xtypes/SequenceInstance.hpp | 18 ++++++++++++----
 include/xtypes/StructType.hpp       | 33 +++++++++++++++++++++--------
 4 files changed, 69 insertions(+), 22 deletions(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index 47e06c2..2ed1a14 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -162,12 +162,25 @@ public:
 
         if (content_type().is_constructed_type() || content_type().kind() != other_array.content_type().kind())
         {
-            for (uint32_t i = 0; i < min_dimension; i++)
+            uint32_t i = 0;
+            try
             {
-                content_type().copy_instance_from_type(
-                    target + i * block_size,
-                    source + i * other_block_size,
-                    other_array.content_type());
+                for (; i < min_dimension; i++)
+                {
+                    content_type().copy_instance_from_type(
+                        target + i * block_size,
+                        source + i * other_block_size,
+                        other_array.content_type());
+                }
+            }
+            catch (...)
+            {
+                // An element cannot be converted: release the already converted ones
+                while (i > 0)
+                {
+                    content_type().destroy_instance(target + (--i) * block_size);
+                }
+                throw;
             }
         }
         else //optimization when the type is primitive with same block_size
diff --git a/include/xtypes/PairType.hpp b/include/xtypes/PairType.hpp
index 9ac883b..15b60cb 100644
--- a/include/xtypes/PairType.hpp
+++ b/include/xtypes/PairType.hpp
@@ -126,10 +126,19 @@ public:
 
         const PairType& pair = static_cast<const PairType&>(other);
         first_->copy_instance_from_type(target, source, pair.first());
-        second_->copy_instance_from_type(
-            target + first_->memory_size(),
-            source + pair.first().memory_size(),
-            pair.second());
+        try
+        {
+            second_->copy_instance_from_type(
+                target + first_->memory_size(),
+                source + pair.first().memory_size(),
+                pair.second());
+        }
+        catch (...)
+        {
+            // The second value cannot be converted: release the already converted one
+            first_->destroy_instance(target);
+            throw;
+        }
     }
 
     void move_instance(
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index faf3b02..c689df1 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -286,10 +286,20 @@ private:
             for (uint32_t i = 0; i < min_size; i++)
             {
                 content_->destroy_instance(memory_ + i * block_size_); // Already constructed
-                content_->copy_instance_from_type(
-                    memory_ + i * block_size_,
-                    other.memory_ + i * other_block_size,
-                    *other.content_);
+                try
+                {
+                    content_->copy_instance_from_type(
+                        memory_ + i * block_size_,
+                        other.memory_ + i * other_block_size,
+                        *other.content_);
+                }
+                catch (...)
+                {
+                    // The element cannot be converted: release the memory, this instance won't be constructed
+                    content_->construct_instance(memory_ + i * block_size_);
+                    free_memory();
+                    throw;
+                }
             }
         }
         else //optimization when the type is primitive with same block_size
diff --git a/include/xtypes/StructType.hpp b/include/xtypes/StructType.hpp
index 2cfbb1f..0507116 100644
--- a/include/xtypes/StructType.hpp
+++ b/include/xtypes/StructType.hpp
@@ -135,20 +135,35 @@ public:
         const StructType& other_struct = static_cast<const StructType&>(other);
 
         auto other_member = other_struct.members().begin();
-        for (auto&& member: members())
+        size_t copied = 0;
+        try
         {
-            if (other_member != other_struct.members().end())
+            for (auto&& member: members())
             {
-                member.type().copy_instance_from_type(
-                    target + member.offset(),
-                    source + other_member->offset(),
-                    other_member->type());
-                other_member++;
+                if (other_member != other_struct.members().end())
+                {
+                    member.type().copy_instance_from_type(
+                        target + member.offset(),
+                        source + other_member->offset(),
+                        other_member->type());
+                    other_member++;
+                }
+                else
+                {
+                    member.type().construct_instance(target + member.offset());
+                }
+                ++copied;
             }
-            else
+        }
+        catch (...)
+        {
+            // A member cannot be converted: release the already converted ones
+            while (copied > 0)
             {
-                member.type().construct_instance(target + member.offset());
+                const Member& member = members().at(--copied);
+                member.type().destroy_instance(target + member.offset());
             }
+            throw;
         }
     }
 
-- 
2.43.0


From b391edede9c2217f10525e9390a1418e346f2ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 41/89] fix: unions that differ in the order of the labels of
 their default are equal

---
 include/xtypes/UnionType.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 263f5e8..95ae7f9 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -1069,7 +1069,11 @@ protected:
     bool has_same_labels(
             const UnionType& other) const
     {
-        if (labels_.size() != other.labels_.size() || default_ != other.default_)
+        // (the label that selects the default member of a new instance may be other one of its labels)
+        const Member* def = member_of_label(invalid_value_);
+        const Member* other_def = other.member_of_label(other.invalid_value_);
+        if (labels_.size() != other.labels_.size() || (def == nullptr) != (other_def == nullptr)
+                || (def != nullptr && case_index(*def) != other.case_index(*other_def)))
         {
             return false;
         }
-- 
2.43.0


From d547d0555535af7409458e8db14997a5305546c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:10 +0000
Subject: [PATCH 42/89] fix: push native values in, and get vectors of,
 collections of aliases

---
 include/xtypes/DynamicData.hpp | 35 ++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 8a6bf54..b6dd485 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -314,14 +314,14 @@ public:
     template<typename T, class = PrimitiveOrString<T> >
     std::vector<T> as_vector() const
     {
-        const CollectionType& collection = static_cast<const CollectionType&>(*type_);
         xtypes_assert(type_->is_collection_type(),
                 "as_vector() isn't available for type '" << type_->name() << "'.");
-        xtypes_assert((collection.content_type().kind() == TypeKind::STRING_TYPE && std::is_same<std::string, T>::value)
-                || (collection.content_type().kind() == TypeKind::WSTRING_TYPE && std::is_same<std::wstring, T>::value)
-                || (collection.content_type().kind() == TypeKind::STRING16_TYPE &&
-                std::is_same<std::u16string, T>::value)
-                || (collection.content_type().kind() == primitive_type<T>().kind()),
+        const CollectionType& collection = static_cast<const CollectionType&>(*type_);
+        [[maybe_unused]] const TypeKind content_kind = resolve_alias(collection.content_type()).kind();
+        xtypes_assert((content_kind == TypeKind::STRING_TYPE && std::is_same<std::string, T>::value)
+                || (content_kind == TypeKind::WSTRING_TYPE && std::is_same<std::wstring, T>::value)
+                || (content_kind == TypeKind::STRING16_TYPE && std::is_same<std::u16string, T>::value)
+                || (content_kind == primitive_type<T>().kind()),
                 "as_vector<" << PrimitiveTypeKindTrait<T>::name << ">() isn't available for type '"
                              << type_->name() << "'.");
 
@@ -642,12 +642,7 @@ protected:
         : instance_(source)
         , initialize_(true)
     {
-        const DynamicType* local = &type;
-
-        if( type.kind() == TypeKind::ALIAS_TYPE )
-        {
-            local = &static_cast<const AliasType&>(type).rget();
-        }
+        const DynamicType* local = &resolve_alias(type);
 
         try
         {
@@ -661,6 +656,13 @@ protected:
         }
     }
 
+    /// \brief Returns the type that an alias stands for, or the type itself if it isn't an alias.
+    static const DynamicType& resolve_alias(
+            const DynamicType& type)
+    {
+        return type.kind() == TypeKind::ALIAS_TYPE ? static_cast<const AliasType&>(type).rget() : type;
+    }
+
     std::shared_ptr<const DynamicType> type_;
     uint8_t* instance_;
     bool initialize_ = false;
@@ -1059,10 +1061,11 @@ public:
         xtypes_assert(type_->kind() == TypeKind::SEQUENCE_TYPE,
                 "push() is only available for sequence types but called for '" << type_->name() << "'.");
         const SequenceType& sequence = static_cast<const SequenceType&>(*type_);
-        xtypes_assert((sequence.content_type().kind() == TypeKind::STRING_TYPE && std::is_same<std::string, T>::value)
-                || (sequence.content_type().kind() == TypeKind::WSTRING_TYPE && std::is_same<std::wstring, T>::value)
-                || (sequence.content_type().kind() == TypeKind::STRING16_TYPE && std::is_same<std::u16string, T>::value)
-                || (sequence.content_type().kind() == primitive_type<T>().kind()),
+        [[maybe_unused]] const TypeKind content_kind = resolve_alias(sequence.content_type()).kind();
+        xtypes_assert((content_kind == TypeKind::STRING_TYPE && std::is_same<std::string, T>::value)
+                || (content_kind == TypeKind::WSTRING_TYPE && std::is_same<std::wstring, T>::value)
+                || (content_kind == TypeKind::STRING16_TYPE && std::is_same<std::u16string, T>::value)
+                || (content_kind == primitive_type<T>().kind()),
                 "Expected type '" << static_cast<const SequenceType&>(*type_).content_type().name()
                                   << "' but '" << PrimitiveTypeKindTrait<T>::name << "' received while pushing value.");
 
-- 
2.43.0


From 45212fd17fa739692ce896bfda93c1f1a11f0cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:32 +0000
Subject: [PATCH 43/89] fix: refuse to use the value of an enumeration as a
 floating point

---
 include/xtypes/DynamicData.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index b6dd485..e2ed095 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -140,7 +140,7 @@ public:
 
         if (type_->is_enumerated_type())
         {
-            xtypes_assert(type_->memory_size() == sizeof(T),
+            xtypes_assert(type_->memory_size() == sizeof(T) && std::is_integral<T>::value,
                     "Incompatible types: '" << type_->name() << "' and '"
                                             << PrimitiveTypeKindTrait<T>::name << "'.");
         }
@@ -1033,7 +1033,7 @@ public:
 
         if (type_->is_enumerated_type())
         {
-            xtypes_assert(type_->memory_size() == sizeof(T),
+            xtypes_assert(type_->memory_size() == sizeof(T) && std::is_integral<T>::value,
                     "Incompatible types: '" << type_->name() << "' and '"
                                             << PrimitiveTypeKindTrait<T>::name << "'.");
             [[maybe_unused]] const EnumeratedType<T>& enum_type = static_cast<const EnumeratedType<T>&>(*type_);
-- 
2.43.0


From 2b1ecb91467174470962968465b7b397e4a6aae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:33 +0000
Subject: [PATCH 44/89] fix: refuse aliases with a scoped name

---
 include/xtypes/idl/Module.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index f422f26..9d08b9a 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -595,9 +595,9 @@ public:
             AliasType& alias)
     {
         std::string name = alias.name();
-        if (aliases_.count(name) > 0)
+        if (name.find("::") != std::string::npos || aliases_.count(name) > 0)
         {
-            return false; // Already defined, keep its name.
+            return false; // Cannot define alias with scoped name (or already defined, keep its name).
         }
 
         std::string name_space = scope();
@@ -608,6 +608,11 @@ public:
     bool add_alias(
             AliasType&& alias)
     {
+        if (alias.name().find("::") != std::string::npos)
+        {
+            return false; // Cannot define alias with scoped name.
+        }
+
         std::string name = alias.name();
         std::string name_space = scope();
         alias.name(name_space + (name_space.empty() ? "" : "::") + name);
-- 
2.43.0


From 6677dc3bb4f8e722dec9906eb7e60d3dd20f95c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:40 +0000
Subject: [PATCH 45/89] fix: a replaced constant no longer counts as from an
 enumeration

---
 include/xtypes/idl/Module.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 9d08b9a..16a43a4 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -22,6 +22,7 @@
 
 #include <xtypes/idl/Type.hpp>
 
+#include <algorithm>
 #include <string>
 #include <memory>
 
@@ -462,6 +463,7 @@ public:
             {
                 constants_.erase(it);
                 constants_types_.erase(constants_types_.find(name));
+                from_enum_.erase(std::remove(from_enum_.begin(), from_enum_.end(), name), from_enum_.end());
             }
         }
 
-- 
2.43.0


From 231ccb6b4c67dce6f3a32a77350f44e94a4a43b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:16 +0000
Subject: [PATCH 46/89] fix: refuse text that ends with an incomplete wide
 character

---
 include/xtypes/StringConversion.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/xtypes/StringConversion.hpp b/include/xtypes/StringConversion.hpp
index b8b5ebc..fed451b 100644
--- a/include/xtypes/StringConversion.hpp
+++ b/include/xtypes/StringConversion.hpp
@@ -18,6 +18,7 @@
 #ifndef EPROSIMA_STRING_CONVERSION_HPP_
 #define EPROSIMA_STRING_CONVERSION_HPP_
 
+#include <cwchar>
 #include <locale>
 #include <version>
 
@@ -121,6 +122,11 @@ std::basic_string<out> code_conversion_tool(const std::basic_string_view<in>& in
                 // gcc implementation mixes up ok and partial
                 if(from_next == from_end)
                 {
+                    if (!mbsinit(&mb))
+                    {
+                        // the input was read, but it ends with an incomplete character
+                        throw std::range_error("encountered an incomplete character");
+                    }
                     // we are done
                     processing = false;
                     // append the contents remember
-- 
2.43.0


From 60856ed4b536154a748d0c3e92da5ae1bf5ccf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:18 +0000
Subject: [PATCH 47/89] fix: generate the constants of every type as literals
 of IDL

---
 include/xtypes/idl/generator.hpp | 132 ++++++++++++++++++++++---------
 1 file changed, 96 insertions(+), 36 deletions(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index 2b39ad4..a300507 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -28,6 +28,9 @@
 #include <xtypes/idl/generator_deptree.hpp>
 #include <xtypes/idl/Module.hpp>
 
+#include <iomanip>
+#include <limits>
+#include <locale>
 #include <sstream>
 
 #define dependencynode_assert(NODEPTR, KIND) \
@@ -215,6 +218,76 @@ inline std::string type_name(
     }
 }
 
+/// \brief Content of a literal (without quotes) that represents a text, with the needed escape sequences.
+inline std::string literal_text(
+        const std::string& text)
+{
+    static const char* hex = "0123456789ABCDEF";
+    std::string result;
+    for (char c : text)
+    {
+        if (c == '\'' || c == '"' || c == '\\')
+        {
+            result += '\\';
+            result += c;
+        }
+        else if (static_cast<unsigned char>(c) < 0x20 || c == 0x7F)
+        {
+            result += "\\x";
+            result += hex[static_cast<unsigned char>(c) >> 4];
+            result += hex[static_cast<unsigned char>(c) & 0x0F];
+        }
+        else
+        {
+            result += c;
+        }
+    }
+    return result;
+}
+
+inline std::string literal_text(
+        const std::u16string& text)
+{
+    auto aux = code_conversion_tool<XTYPES_CHAR>(text);
+    return literal_text(std::string(aux.begin(), aux.end()));
+}
+
+inline std::string literal_text(
+        const std::wstring& text)
+{
+    std::u16string aux;
+    for (wchar_t c : text)
+    {
+        uint32_t code = static_cast<uint32_t>(c);
+        if (code > 0xFFFF)
+        {
+            aux += static_cast<char16_t>(0xD800 + ((code - 0x10000) >> 10));
+            aux += static_cast<char16_t>(0xDC00 + ((code - 0x10000) & 0x3FF));
+        }
+        else
+        {
+            aux += static_cast<char16_t>(code);
+        }
+    }
+    return literal_text(aux);
+}
+
+/// \brief Literal that represents a floating point value with all its precision.
+template<typename T>
+inline std::string float_literal(
+        T value)
+{
+    std::stringstream ss;
+    ss.imbue(std::locale::classic());
+    ss << std::setprecision(std::numeric_limits<T>::max_digits10) << value;
+    std::string result = ss.str();
+    if (result.find_first_not_of("-0123456789") == std::string::npos)
+    {
+        result += ".0";
+    }
+    return result;
+}
+
 inline std::string label_value(
         size_t value,
         const DynamicType& type)
@@ -427,44 +500,31 @@ inline std::string enumeration32(
 inline std::string get_const_value(
         ReadableDynamicDataRef data)
 {
-    std::stringstream ss;
-    std::string prefix = "";
-    std::string suffix = "";
-
-    if (data.type().kind() == TypeKind::STRING_TYPE)
-    {
-        prefix = "\"";
-        suffix = "\"";
-    }
-    else if (data.type().kind() == TypeKind::WSTRING_TYPE)
-    {
-        prefix = "L\"";
-        suffix = "\"";
-    }
-    else if (data.type().kind() == TypeKind::STRING16_TYPE)
-    {
-        prefix = "L\"";
-        suffix = "\"";
-    }
-    else if (data.type().kind() == TypeKind::CHAR_8_TYPE)
+    switch (data.type().kind())
     {
-        prefix = "'";
-        suffix = "'";
-    }
-    else if (data.type().kind() == TypeKind::CHAR_16_TYPE)
-    {
-        prefix = "L'";
-        suffix = "'";
-    }
-    else if (data.type().kind() == TypeKind::WIDE_CHAR_TYPE)
-    {
-        prefix = "L'";
-        suffix = "'";
+        case TypeKind::BOOLEAN_TYPE:
+            return data.value<bool>() ? "TRUE" : "FALSE";
+        case TypeKind::CHAR_8_TYPE:
+            return "'" + literal_text(std::string(1, data.value<char>())) + "'";
+        case TypeKind::CHAR_16_TYPE:
+            return "L'" + literal_text(std::u16string(1, data.value<char16_t>())) + "'";
+        case TypeKind::WIDE_CHAR_TYPE:
+            return "L'" + literal_text(std::wstring(1, data.value<wchar_t>())) + "'";
+        case TypeKind::STRING_TYPE:
+            return "\"" + literal_text(data.value<std::string>()) + "\"";
+        case TypeKind::STRING16_TYPE:
+            return "L\"" + literal_text(data.value<std::u16string>()) + "\"";
+        case TypeKind::WSTRING_TYPE:
+            return "L\"" + literal_text(data.value<std::wstring>()) + "\"";
+        case TypeKind::FLOAT_32_TYPE:
+            return float_literal(data.value<float>());
+        case TypeKind::FLOAT_64_TYPE:
+            return float_literal(data.value<double>());
+        case TypeKind::FLOAT_128_TYPE:
+            return float_literal(data.value<long double>());
+        default:
+            return data.cast<std::string>();
     }
-
-    ss << prefix << data.cast<std::string>() << suffix;
-
-    return ss.str();
 }
 
 } //namespace generator
-- 
2.43.0


From 3eb350c9ab03b1f8df50a452319dbbf97aa6f5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 48/89] fix: generate the labels of signed and enumeration
 alias discriminators

---
 include/xtypes/idl/generator.hpp | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index a300507..2a29b5b 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -289,17 +289,15 @@ inline std::string float_literal(
 }
 
 inline std::string label_value(
-        size_t value,
+        int64_t value,
         const DynamicType& type)
 {
-    TypeKind kind = type.kind();
-
-    if (kind == TypeKind::ALIAS_TYPE)
+    if (type.kind() == TypeKind::ALIAS_TYPE)
     {
-        kind = static_cast<const AliasType&>(type).rget().kind();
+        return label_value(value, static_cast<const AliasType&>(type).rget());
     }
 
-    switch (kind)
+    switch (type.kind())
     {
         case TypeKind::BOOLEAN_TYPE:
         {
@@ -307,19 +305,12 @@ inline std::string label_value(
         }
         case TypeKind::CHAR_8_TYPE:
         {
-            char temp = static_cast<char>(value);
-            std::stringstream ss;
-            ss << "'" << temp << "'";
-            return ss.str();
+            return "'" + literal_text(std::string(1, static_cast<char>(value))) + "'";
         }
         case TypeKind::CHAR_16_TYPE:
         case TypeKind::WIDE_CHAR_TYPE:
         {
-            char16_t temp = static_cast<char16_t>(value);
-            std::stringstream ss;
-            auto aux = code_conversion_tool<XTYPES_CHAR>(std::u16string(1, temp));
-            ss << "L'" << std::string(aux.begin(), aux.end()) << "'";
-            return ss.str();
+            return "L'" + literal_text(std::wstring(1, static_cast<wchar_t>(value))) + "'";
         }
         case TypeKind::INT_8_TYPE:
         case TypeKind::UINT_8_TYPE:
-- 
2.43.0


From d0900eed6bc05349b876768c3b3bb5f8d0f00421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 49/89] fix: generate every type after those it depends on

---
 include/xtypes/idl/generator_deptree.hpp | 163 ++++++++++++-----------
 1 file changed, 87 insertions(+), 76 deletions(-)

diff --git a/include/xtypes/idl/generator_deptree.hpp b/include/xtypes/idl/generator_deptree.hpp
index 0e6f84d..55a0188 100644
--- a/include/xtypes/idl/generator_deptree.hpp
+++ b/include/xtypes/idl/generator_deptree.hpp
@@ -111,8 +111,18 @@ public:
         , node_(node)
         , kind_(std::move(kind))
         , iterated_(false)
+        , visited_(false)
     {}
 
+    /// \brief Mark this DependencyNode as visited: its turn to be generated (after its ancestors) came.
+    /// \returns A boolean value indicating if it is the first visit.
+    bool visit()
+    {
+        bool first = !visited_;
+        visited_ = true;
+        return first;
+    }
+
     /// \brief Check if this DependencyNode has been iterated.
     /// "Iterated" means that its IDL representation has already been generated.
     /// \returns A boolean value indicating if object has been iterated or not.
@@ -368,6 +378,7 @@ private:
     const ModuleElement& node_;
     ModuleElementKind kind_;
     bool iterated_;
+    bool visited_;
     NodeRefSet ancestors_;
     ModuleRefSet parent_modules_;
     ModuleRefSet child_modules_;
@@ -393,6 +404,7 @@ public:
             const Module& module,
             DependencyModule* outer)
         : iterated_(false)
+        , visited_(false)
         , module_(module)
         , d_root_(d_root)
         , d_outer_(outer)
@@ -406,6 +418,15 @@ public:
         return iterated_;
     }
 
+    /// \brief Mark this DependencyModule as visited: its turn to be generated (after its ancestors) came.
+    /// \returns A boolean value indicating if it is the first visit.
+    bool visit()
+    {
+        bool first = !visited_;
+        visited_ = true;
+        return first;
+    }
+
     /// \brief Change a DependencyModule's iterated property.
     /// \param[in] Boolean value to set this DependencyModule as iterated (or not).
     void set_iterated(bool iterated)
@@ -781,12 +802,9 @@ public:
     /// \brief Set a dependency between two DependencyNodes.
     /// \param[in] dependent The DependencyNode objects which depends on master.
     /// \param[in] master Name of the DependencyNode to be found in the tree.
-    /// \param[in] dep_list A ModuleElement map to search within this DependencyModule.
-    /// before triggering search in the whole tree.
     void set_dependency(
             DependencyNode& dependent,
-            const std::string& master,
-            const ModuleElementKind& kind)
+            const std::string& master)
     {
         if (dependent.name() == master) // Cannot add dependency to itself
         {
@@ -816,11 +834,7 @@ public:
         {
             for (auto& node : node_set_)
             {
-                if (node.kind() != kind)
-                {
-                    continue;
-                }
-                else if (node.name() == unscoped_master)
+                if (node.name() == unscoped_master)
                 {
                     dependent.set_ancestor(node);
                     break;
@@ -877,7 +891,7 @@ public:
     {
         if (opts_for_dependency_setting(type))
         {
-            set_dependency(node, master, node.kind());
+            set_dependency(node, master);
         }
     }
 
@@ -890,7 +904,10 @@ public:
             case ModuleElementKind::xALIAS:
             {
                 const AliasType& alias = static_cast<const AliasType&>(node.type());
-                set_dynamic_type_dependency(node, *alias, alias->name());
+                alias.get().for_each([&](const DynamicType::TypeNode& tnode)
+                {
+                    set_dynamic_type_dependency(node, tnode.type(), tnode.type().name());
+                });
                 break;
             }
 
@@ -1020,56 +1037,10 @@ public:
         }
     }
 
-    /// \brief Generate IDL sentence for the DependencyNode contents of this module.
-    /// \param[in] tabs Padding relative to module's scope.
-    /// \param[in] is_child If set, generate IDL sentence only for DependencyNode that has as child
-    /// the "is_child" DependencyModule reference.
-    /// \returns An string with the generated IDL.
-    std::string generate_idl_module(
-            unsigned int tabs = 0,
-            std::map<std::string, std::string>* struct_idl = nullptr)
-    {
-        std::stringstream ss;
-
-        for (auto& node : node_set_)
-        {
-            if (node.has_ancestors())
-            {
-                for (const auto& ancestor : node.ancestors())
-                {
-                    std::stringstream ss_ancestor;
-                    ss_ancestor << ancestor.get().generate_idl_sentence(tabs, struct_idl);
-
-                    if (ss_ancestor.rdbuf()->in_avail())
-                    {
-                        ss << ss_ancestor.str() << std::endl;
-                    }
-                }
-            }
-
-            std::stringstream ss_node;
-            ss_node << node.generate_idl_sentence(tabs, struct_idl);
-
-            if (ss_node.rdbuf()->in_avail() &&
-                (!all_nodes_iterated() || (!d_inner_.empty() && !all_inner_iterated())))
-            {
-                ss_node << std::endl;
-            }
-
-            ss << ss_node.str();
-
-            if (struct_idl != nullptr)
-            {
-                (*struct_idl)[node.type().name()] = ss_node.str();
-            }
-        }
-
-        return ss.str();
-    }
-
 private:
 
     bool iterated_;
+    bool visited_;
     const Module& module_;
     const std::shared_ptr<DependencyModule>& d_root_;
     DependencyModule* d_outer_;
@@ -1137,6 +1108,13 @@ public:
             return std::string();
         }
 
+        if (!dep_mod->visit())
+        {
+            xtypes_assert(false,
+                "Circular dependencies of the module '" << dep_mod->module().scope() << "' are not supported.");
+            return std::string();
+        }
+
         bool root = dep_mod->module().name().empty();
         std::stringstream ss;
 
@@ -1160,12 +1138,7 @@ public:
             {
                 if (onode.has_child_module(dep_mod))
                 {
-                    ss << outer->generate_idl_sentence(onode, tabs, module_idl);
-
-                    if (!outer->all_nodes_iterated())
-                    {
-                        ss << std::endl;
-                    }
+                    ss << generate_idl_node(outer, onode, tabs, module_idl);
                 }
             }
         }
@@ -1194,20 +1167,9 @@ public:
 
         for (auto& node : dep_mod->node_set())
         {
-            if (node.has_parent_modules())
-            {
-                for (const auto& parent : node.parent_modules())
-                {
-                    if (!parent.lock().get()->iterated())
-                    {
-                        ss << generate_idl(parent.lock().get(), root ? 0 : tabs + 1, module_idl) << std::endl;
-                    }
-                }
-            }
+            ss << generate_idl_node(dep_mod, node, root ? 0 : tabs + 1, module_idl);
         }
 
-        ss << dep_mod->generate_idl_module(root ? 0 : tabs + 1, module_idl);
-
         // Iterate over inner DependencyModule list
         for (const auto& inner : dep_mod->inner())
         {
@@ -1276,6 +1238,55 @@ public:
         return ss.str();
     }
 
+    /// \brief Generate IDL sentence for a DependencyNode, preceded by those of all its ancestors.
+    /// \param[in] dep_mod the DependencyModule that contains the node.
+    /// \param[in] node the DependencyNode whose IDL wants to be generated.
+    /// \param[in] tabs Padding relative to module's scope.
+    /// \returns A string representing IDL definition for the given node.
+    std::string generate_idl_node(
+            DependencyModule* dep_mod,
+            DependencyNode& node,
+            unsigned int tabs,
+            std::map<std::string, std::string>* module_idl = nullptr) const
+    {
+        if (!node.visit())
+        {
+            return std::string();
+        }
+
+        std::stringstream ss;
+
+        for (const auto& parent : node.parent_modules())
+        {
+            DependencyModule* p_parent = parent.lock().get();
+            if (!p_parent->iterated())
+            {
+                ss << generate_idl(p_parent, tabs, module_idl) << std::endl;
+            }
+        }
+
+        for (const auto& ancestor : node.ancestors())
+        {
+            ss << generate_idl_node(dep_mod, ancestor.get(), tabs, module_idl);
+        }
+
+        std::string sentence = dep_mod->generate_idl_sentence(node, tabs, module_idl);
+
+        if (!sentence.empty() && !(dep_mod->all_nodes_iterated() && dep_mod->all_inner_iterated()))
+        {
+            sentence += "\n";
+        }
+
+        if (module_idl != nullptr)
+        {
+            (*module_idl)[node.type().name()] = sentence;
+        }
+
+        ss << sentence;
+
+        return ss.str();
+    }
+
     /// \brief Helper method to generate IDL from root Module of this ModuleDependencyTree object.
     /// \returns A string representing IDL definition for root Module.
     inline std::string generate_idl(
-- 
2.43.0


From 2b5ab5d94871026b4c66a76f2e0faaeb92e74a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:05 +0000
Subject: [PATCH 50/89] fix: generate absolute names when the scope of a type
 is hidden

---
 include/xtypes/idl/generator.hpp | 57 ++++++++++++++++----------------
 1 file changed, 29 insertions(+), 28 deletions(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index 2a29b5b..0bf325a 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -110,13 +110,35 @@ inline std::string array_member(
     return ss.str();
 }
 
+/// \brief Check if a scoped name, as read from the module of a node, would be searched in the wrong scope, because
+/// its first component is also declared in that module or in one of its outer modules.
+inline bool is_scope_hidden(
+        dependencytree::DependencyNode* node,
+        const std::string& scoped_name)
+{
+    if (node == nullptr)
+    {
+        return false;
+    }
+
+    std::string first = scoped_name.substr(0, scoped_name.find("::"));
+    for (const dependencytree::DependencyModule* dep_mod = node->from(); dep_mod->has_outer(); dep_mod = dep_mod->outer())
+    {
+        if (dep_mod->module().has_symbol(first, false) || dep_mod->module().has_submodule(first))
+        {
+            return true;
+        }
+    }
+    return false;
+}
+
 inline std::string type_scope(
         dependencytree::DependencyNode* node,
         const DynamicType& type)
 {
     if (type.name().find("::") != std::string::npos) // Type name is already scoped
     {
-        return std::string();
+        return is_scope_hidden(node, type.name()) ? "::" : std::string();
     }
     if (node == nullptr)
     {
@@ -186,35 +208,14 @@ inline std::string type_name(
     }
     else
     {
-        std::stringstream ss;
-        ss << generator::type_scope(node, type);
-
-        if (type.kind() == TypeKind::ALIAS_TYPE)
-        {
-            ss << static_cast<const AliasType&>(type).name();
-        }
-        else
+        const std::string& type_name = type.name();
+        size_t scope_end = type_name.rfind("::");
+        if (type.kind() != TypeKind::ALIAS_TYPE && scope_end != std::string::npos
+            && node && type_name.substr(0, scope_end) == node->module().scope() && !scoped)
         {
-            const std::string& type_name = type.name();
-            if (type_name.find("::") != std::string::npos)
-            {
-                size_t scope_end = type_name.rfind("::");
-                std::string scope = type_name.substr(0, scope_end);
-                if (node && (scope == node->module().scope()) && !scoped) // Redundant scope: get rid of it
-                {
-                    ss << type_name.substr(scope_end + 2);
-                }
-                else
-                {
-                    ss << type_name;
-                }
-            }
-            else
-            {
-                ss << type_name;
-            }
+            return type_name.substr(scope_end + 2); // Redundant scope: get rid of it
         }
-        return ss.str();
+        return generator::type_scope(node, type) + type_name;
     }
 }
 
-- 
2.43.0


From 2b1d86c283ab1db22eb6a7f40f8b5779249ff94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:04 +0000
Subject: [PATCH 51/89] fix: take as dependencies only the types that a
 definition names

---
 include/xtypes/idl/generator_deptree.hpp | 52 ++++++++++++++++--------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/include/xtypes/idl/generator_deptree.hpp b/include/xtypes/idl/generator_deptree.hpp
index 55a0188..aa7b38e 100644
--- a/include/xtypes/idl/generator_deptree.hpp
+++ b/include/xtypes/idl/generator_deptree.hpp
@@ -62,6 +62,9 @@ inline std::string structure(
         size_t tabs = 0,
         std::map<std::string, std::string>* struct_idl = nullptr);
 
+inline size_t inherit_members(
+        const AggregationType& type);
+
 inline std::string generate_union(
         const std::string& name,
         const UnionType& type,
@@ -895,6 +898,30 @@ public:
         }
     }
 
+    /// \brief Set dependencies to the types a type is written with: itself, if it opts for dependency setting, or
+    /// those of its contents. What these types depend on is set when their own nodes are inspected.
+    /// \param[in] node The dependent node to be set a dependency ancestor.
+    /// \param[in] type The DynamicType written in the definition of the node.
+    inline void set_written_type_dependency(
+            DependencyNode& node,
+            const DynamicType& type)
+    {
+        if (opts_for_dependency_setting(type))
+        {
+            set_dependency(node, type.name());
+        }
+        else if (type.kind() == TypeKind::PAIR_TYPE)
+        {
+            const PairType& pair = static_cast<const PairType&>(type);
+            set_written_type_dependency(node, pair.first());
+            set_written_type_dependency(node, pair.second());
+        }
+        else if (type.is_collection_type())
+        {
+            set_written_type_dependency(node, static_cast<const CollectionType&>(type).content_type());
+        }
+    }
+
     /// \brief Inspects a DependencyNode object and sets dependencies according to its kind.
     /// \param[in] node The DependencyNode whose dependencies wants to be solved.
     void set_node_dependencies(DependencyNode& node)
@@ -904,10 +931,7 @@ public:
             case ModuleElementKind::xALIAS:
             {
                 const AliasType& alias = static_cast<const AliasType&>(node.type());
-                alias.get().for_each([&](const DynamicType::TypeNode& tnode)
-                {
-                    set_dynamic_type_dependency(node, tnode.type(), tnode.type().name());
-                });
+                set_written_type_dependency(node, alias.get());
                 break;
             }
 
@@ -935,28 +959,20 @@ public:
                     set_dynamic_type_dependency(node, structure.parent(), structure.parent().name());
                 }
 
-                structure.for_each([&](const DynamicType::TypeNode& tnode)
+                for (size_t idx = inherit_members(structure); idx < structure.members().size(); ++idx)
                 {
-                    const DynamicType& type = tnode.type();
-                    if (type.name() != structure.name())
-                    {
-                        set_dynamic_type_dependency(node, type, type.name());
-                    }
-                });
+                    set_written_type_dependency(node, structure.member(idx).type());
+                }
                 break;
             }
             case ModuleElementKind::xUNION:
             {
                 // TODO: detect if we are setting cyclical union dependencies, and generate a forward declaration.
                 const UnionType& union_type = static_cast<const UnionType&>(node.type());
-                union_type.for_each([&](const DynamicType::TypeNode& tnode)
+                for (const Member& member : union_type.members())
                 {
-                    const DynamicType& type = tnode.type();
-                    if (type.name() != union_type.name())
-                    {
-                        set_dynamic_type_dependency(node, type, type.name());
-                    }
-                });
+                    set_written_type_dependency(node, member.type());
+                }
                 break;
             }
             /*
-- 
2.43.0


From b23a1e58fcc26ce9b32b58c4515397ccece03c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:23 +0000
Subject: [PATCH 52/89] fix: show integers of 8 bits as numbers in the text of
 the data

---
 include/xtypes/DynamicDataImpl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/DynamicDataImpl.hpp b/include/xtypes/DynamicDataImpl.hpp
index 364aad0..e5d15f6 100644
--- a/include/xtypes/DynamicDataImpl.hpp
+++ b/include/xtypes/DynamicDataImpl.hpp
@@ -156,10 +156,10 @@ inline std::string ReadableDynamicDataRef::to_string() const
                     break;
                 }
             case TypeKind::INT_8_TYPE:
-                ss << "<" << type_name << ">  " << node.data().value<int8_t>();
+                ss << "<" << type_name << ">  " << static_cast<int>(node.data().value<int8_t>());
                 break;
             case TypeKind::UINT_8_TYPE:
-                ss << "<" << type_name << ">  " << node.data().value<uint8_t>();
+                ss << "<" << type_name << ">  " << static_cast<unsigned int>(node.data().value<uint8_t>());
                 break;
             case TypeKind::INT_16_TYPE:
                 ss << "<" << type_name << ">  " << node.data().value<int16_t>();
-- 
2.43.0


From eebb6ff5d2ff351f44576e14a78140e8f298b2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:10 +0000
Subject: [PATCH 53/89] fix: show unions and pairs in the text of the data

---
 include/xtypes/DynamicDataImpl.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/xtypes/DynamicDataImpl.hpp b/include/xtypes/DynamicDataImpl.hpp
index e5d15f6..89c4d42 100644
--- a/include/xtypes/DynamicDataImpl.hpp
+++ b/include/xtypes/DynamicDataImpl.hpp
@@ -218,6 +218,12 @@ inline std::string ReadableDynamicDataRef::to_string() const
             case TypeKind::STRUCTURE_TYPE:
                 ss << "Structure: <" << type_name << ">";
                 break;
+            case TypeKind::UNION_TYPE:
+                ss << "Union: <" << type_name << ">";
+                break;
+            case TypeKind::PAIR_TYPE:
+                ss << "<" << type_name << ">";
+                break;
             case TypeKind::ENUMERATION_TYPE:
                 ss << "Enumeration: <" << type_name << ">";
                 break;
-- 
2.43.0


From fb805209648a83e106fc692129596e7fd7cd4d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:57 +0000
Subject: [PATCH 54/89] fix: show all the wide characters in the text of the
 data

---
 include/xtypes/DynamicDataImpl.hpp | 39 ++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/include/xtypes/DynamicDataImpl.hpp b/include/xtypes/DynamicDataImpl.hpp
index 89c4d42..4f43339 100644
--- a/include/xtypes/DynamicDataImpl.hpp
+++ b/include/xtypes/DynamicDataImpl.hpp
@@ -121,6 +121,28 @@ namespace xtypes {
     }\
 }
 
+/// \brief Returns a text of wide characters encoded as UTF-16.
+inline std::u16string wide_to_utf16(
+        const std::wstring& text)
+{
+    std::u16string result;
+    for (wchar_t wide : text)
+    {
+        uint32_t character = static_cast<uint32_t>(wide);
+        if (sizeof(wchar_t) > sizeof(char16_t) && character > 0xFFFF)
+        {
+            character -= 0x10000;
+            result.push_back(static_cast<char16_t>(0xD800 + (character >> 10)));
+            result.push_back(static_cast<char16_t>(0xDC00 + (character & 0x3FF)));
+        }
+        else
+        {
+            result.push_back(static_cast<char16_t>(wide));
+        }
+    }
+    return result;
+}
+
 inline std::string ReadableDynamicDataRef::to_string() const
 {
     std::stringstream ss;
@@ -145,13 +167,17 @@ inline std::string ReadableDynamicDataRef::to_string() const
                 ss << "<" << type_name << ">  " << node.data().value<char>();
                 break;
             case TypeKind::CHAR_16_TYPE:
+                {
+                    ss << "<" << type_name << ">  ";
+                    auto aux = code_conversion_tool<XTYPES_CHAR>(std::u16string(1, node.data().value<char16_t>()));
+                    ss << std::string(aux.begin(), aux.end());
+                    break;
+                }
             case TypeKind::WIDE_CHAR_TYPE:
                 {
                     ss << "<" << type_name << ">  ";
-                    char16_t character = node.data().type().kind() == TypeKind::CHAR_16_TYPE
-                        ? node.data().value<char16_t>()
-                        : static_cast<char16_t>(node.data().value<wchar_t>());
-                    auto aux = code_conversion_tool<XTYPES_CHAR>(std::u16string(1, character));
+                    auto aux = code_conversion_tool<XTYPES_CHAR>(
+                        wide_to_utf16(std::wstring(1, node.data().value<wchar_t>())));
                     ss << std::string(aux.begin(), aux.end());
                     break;
                 }
@@ -194,9 +220,8 @@ inline std::string ReadableDynamicDataRef::to_string() const
             case TypeKind::WSTRING_TYPE:
                 {
                     ss << "<" << type_name << ">  ";
-                    auto aux = node.data().value<std::wstring>();
-                    auto aux2 = code_conversion_tool<XTYPES_CHAR>(std::u16string(aux.begin(), aux.end()));
-                    ss << std::string(aux2.begin(), aux2.end());
+                    auto aux = code_conversion_tool<XTYPES_CHAR>(wide_to_utf16(node.data().value<std::wstring>()));
+                    ss << std::string(aux.begin(), aux.end());
                     break;
                 }
             case TypeKind::STRING16_TYPE:
-- 
2.43.0


From ea46fedc8957194ae6673416b307c37cbb542f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:37 +0000
Subject: [PATCH 55/89] fix: IDL expressions are left associative and parsed in
 linear time

---
 include/xtypes/idl/grammar.hpp |  14 ++---
 include/xtypes/idl/parser.hpp  | 112 ++++++++++++---------------------
 2 files changed, 47 insertions(+), 79 deletions(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index 5b144ce..20b7a14 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -64,14 +64,14 @@ CONST_TYPE <-
     SCOPED_NAME
 
 #CONST_EXPR <- OR_EXPR
-#OR_EXPR <- XOR_EXPR OR_OP OR_EXPR / XOR_EXPR
+#OR_EXPR <- XOR_EXPR (OR_OP XOR_EXPR)*
 
-CONST_EXPR <- XOR_EXPR OR_OP CONST_EXPR / XOR_EXPR
-XOR_EXPR <- AND_EXPR XOR_OP XOR_EXPR / AND_EXPR
-AND_EXPR <- SHIFT_EXPR AND_OP AND_EXPR / SHIFT_EXPR
-SHIFT_EXPR <- ADD_EXPR ANY_SHITF_OP SHIFT_EXPR / ADD_EXPR
-ADD_EXPR <- MULT_EXPR ANY_ADD_OP ADD_EXPR / MULT_EXPR
-MULT_EXPR <- UNARY_EXPR ANY_MULT_OP MULT_EXPR / UNARY_EXPR
+CONST_EXPR <- XOR_EXPR (OR_OP XOR_EXPR)*
+XOR_EXPR <- AND_EXPR (XOR_OP AND_EXPR)*
+AND_EXPR <- SHIFT_EXPR (AND_OP SHIFT_EXPR)*
+SHIFT_EXPR <- ADD_EXPR (ANY_SHITF_OP ADD_EXPR)*
+ADD_EXPR <- MULT_EXPR (ANY_ADD_OP MULT_EXPR)*
+MULT_EXPR <- UNARY_EXPR (ANY_MULT_OP UNARY_EXPR)*
 UNARY_EXPR <- UNARY_OP PRIMARY_EXPR / PRIMARY_EXPR
 PRIMARY_EXPR <- OPEN_PARENTHESES CONST_EXPR CLOSE_PARENTHESES / SCOPED_OR_LITERAL
 SCOPED_OR_LITERAL <- LITERAL / SCOPED_NAME
diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 0d0796c..7539867 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1256,6 +1256,38 @@ private:
         return true;
     }
 
+    DynamicData solve_operation(
+            const DynamicData& lho,
+            const std::shared_ptr<peg::Ast>& op,
+            const DynamicData& rho) const
+    {
+        using namespace peg::udl;
+        switch (op->tag)
+        {
+            case "MULT_OP"_:
+                return lho * rho;
+            case "DIV_OP"_:
+                return lho / rho;
+            case "MOD_OP"_:
+                return lho % rho;
+            case "ADD_OP"_:
+                return lho + rho;
+            case "SUB_OP"_:
+                return lho - rho;
+            case "LSHIFT_OP"_:
+                return lho << rho;
+            case "RSHIFT_OP"_:
+                return lho >> rho;
+            case "AND_OP"_:
+                return lho & rho;
+            case "XOR_OP"_:
+                return lho ^ rho;
+            case "OR_OP"_:
+                return lho | rho;
+        }
+        throw exception("Unknown operator in a constant expression.", op);
+    }
+
     DynamicData solve_expr(
             const DynamicType& type,
             const std::shared_ptr<peg::Ast>& ast,
@@ -1293,84 +1325,20 @@ private:
             }
             break;
             case "MULT_EXPR"_:
-            {
-                DynamicData lho = solve_expr(type, ast->nodes[0], outer);
-                DynamicData rho = solve_expr(type, ast->nodes[2], outer);
-
-                if (ast->nodes[1]->tag == "MULT_OP"_)
-                {
-                    DynamicData temp(lho* rho);
-                    result = temp;
-                }
-                else if (ast->nodes[1]->tag == "DIV_OP"_)
-                {
-                    DynamicData temp(lho / rho);
-                    result = temp;
-                    //return lho / rho;
-                }
-                else if (ast->nodes[1]->tag == "MOD_OP"_)
-                {
-                    DynamicData temp(lho % rho);
-                    result = temp;
-                }
-            }
-            break;
             case "ADD_EXPR"_:
-            {
-                DynamicData lho = solve_expr(type, ast->nodes[0], outer);
-                DynamicData rho = solve_expr(type, ast->nodes[2], outer);
-
-                DynamicData temp(type);
-                if (ast->nodes[1]->tag == "ADD_OP"_)
-                {
-                    temp = DynamicData(lho + rho);
-                }
-                else if (ast->nodes[1]->tag == "SUB_OP"_)
-                {
-                    temp = DynamicData(lho - rho);
-                }
-                result = temp;
-            }
-            break;
             case "SHIFT_EXPR"_:
-            {
-                DynamicData lho = solve_expr(type, ast->nodes[0], outer);
-                DynamicData rho = solve_expr(type, ast->nodes[2], outer);
-
-                DynamicData temp(type);
-                if (ast->nodes[1]->tag == "LSHIFT_OP"_)
-                {
-                    temp = DynamicData(lho << rho);
-                }
-                else if (ast->nodes[1]->tag == "RSHIFT_OP"_)
-                {
-                    temp = DynamicData(lho >> rho);
-                }
-                result = temp;
-            }
-            break;
             case "AND_EXPR"_:
-            {
-                DynamicData lho = solve_expr(type, ast->nodes[0], outer);
-                DynamicData rho = solve_expr(type, ast->nodes[2], outer);
-
-                result = DynamicData(lho & rho);
-            }
-            break;
             case "XOR_EXPR"_:
-            {
-                DynamicData lho = solve_expr(type, ast->nodes[0], outer);
-                DynamicData rho = solve_expr(type, ast->nodes[2], outer);
-
-                result = DynamicData(lho ^ rho);
-            }
-            break;
             case "CONST_EXPR"_: // OR_EXPR
             {
-                DynamicData lho = solve_expr(type, ast->nodes[0], outer);
-                DynamicData rho = solve_expr(type, ast->nodes[2], outer);
-
-                result = DynamicData(lho | rho);
+                // The operands and their operators are alternated. All the operators are left associative.
+                result = solve_expr(type, ast->nodes[0], outer);
+                for (size_t idx = 2; idx < ast->nodes.size(); idx += 2)
+                {
+                    DynamicData rho = solve_expr(type, ast->nodes[idx], outer);
+                    DynamicData temp(solve_operation(result, ast->nodes[idx - 1], rho));
+                    result = temp;
+                }
             }
             break;
         }
-- 
2.43.0


From 50759ff09dcd36770becf8f99f92d247da1887e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:37 +0000
Subject: [PATCH 56/89] fix: complement and lowest integers in the IDL
 expressions

---
 include/xtypes/idl/parser.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 7539867..c715658 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1012,17 +1012,18 @@ private:
 
     bool get_literal_value(
             DynamicData& data,
-            const std::shared_ptr<peg::Ast>& ast) const
+            const std::shared_ptr<peg::Ast>& ast,
+            bool negative = false) const
     {
         using namespace peg::udl;
         const unsigned int tag = ast->tag;
-        const auto& literal = ast->token;
+        const std::string literal = std::string(negative ? "-" : "") + std::string(ast->token);
         int base = 10;
-        if (literal.find("0x") == 0 || literal.find("0X") == 0)
+        if (ast->token.find("0x") == 0 || ast->token.find("0X") == 0)
         {
             base = 16;
         }
-        else if (literal.find("0") == 0)
+        else if (ast->token.find("0") == 0)
         {
             base = 8;
         }
@@ -1316,12 +1317,24 @@ private:
                 break;
             case "UNARY_EXPR"_:
             {
+                if (ast->nodes[0]->tag == "SUB_OP"_ && ast->nodes[1]->tag == "INTEGER_LITERAL"_)
+                {
+                    // The absolute value of the lowest integer cannot be represented by its own type
+                    get_literal_value(result, ast->nodes[1], true);
+                    break;
+                }
+
                 result = solve_expr(type, ast->nodes[1], outer);
                 if (ast->nodes[0]->tag == "SUB_OP"_)
                 {
                     DynamicData temp(-result);
                     result = temp;
                 }
+                else if (ast->nodes[0]->tag == "NEG_OP"_)
+                {
+                    DynamicData temp(~result);
+                    result = temp;
+                }
             }
             break;
             case "MULT_EXPR"_:
-- 
2.43.0


From d271f899e07c4dde6acd19a2cc0e4d2e8ef4e02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:37 +0000
Subject: [PATCH 57/89] fix: division by zero and shifts out of range in the
 IDL expressions are errors

---
 include/xtypes/idl/parser.hpp | 54 +++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index c715658..ece7bd3 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -45,6 +45,7 @@
 #include <filesystem>
 #include <fstream>
 #include <functional>
+#include <limits>
 #include <map>
 #include <memory>
 #include <regex>
@@ -1257,12 +1258,65 @@ private:
         return true;
     }
 
+    /// Checks that the operation between integers has a result.
+    void check_operation(
+            const DynamicData& lho,
+            const std::shared_ptr<peg::Ast>& op,
+            const DynamicData& rho) const
+    {
+        using namespace peg::udl;
+        bool is_signed = false;
+        switch (lho.type().kind())
+        {
+            case TypeKind::INT_8_TYPE:
+            case TypeKind::INT_16_TYPE:
+            case TypeKind::INT_32_TYPE:
+            case TypeKind::INT_64_TYPE:
+                is_signed = true;
+                break;
+            case TypeKind::UINT_8_TYPE:
+            case TypeKind::UINT_16_TYPE:
+            case TypeKind::UINT_32_TYPE:
+            case TypeKind::UINT_64_TYPE:
+                break;
+            default:
+                return;
+        }
+
+        const size_t bits = lho.type().memory_size() * 8;
+        const uint64_t right = rho.cast<uint64_t>();
+        std::string message;
+        if (op->tag == "DIV_OP"_ || op->tag == "MOD_OP"_)
+        {
+            if (right == 0)
+            {
+                message = "Division by zero in a constant expression.";
+            }
+            else if (is_signed && rho.cast<int64_t>() == -1
+                    && lho.cast<int64_t>() == (std::numeric_limits<int64_t>::min() >> (64 - bits)))
+            {
+                message = "Division out of range in a constant expression.";
+            }
+        }
+        else if ((op->tag == "LSHIFT_OP"_ || op->tag == "RSHIFT_OP"_) && right >= bits)
+        {
+            message = "Shift out of range in a constant expression.";
+        }
+
+        if (!message.empty())
+        {
+            context_->log(log::LogLevel::xERROR, "EXCEPTION", message, op);
+            throw exception(message, op);
+        }
+    }
+
     DynamicData solve_operation(
             const DynamicData& lho,
             const std::shared_ptr<peg::Ast>& op,
             const DynamicData& rho) const
     {
         using namespace peg::udl;
+        check_operation(lho, op, rho);
         switch (op->tag)
         {
             case "MULT_OP"_:
-- 
2.43.0


From a2219d98d85a9a1dfa59b5b84144652a80d7e6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:40 +0000
Subject: [PATCH 58/89] fix: quotes, escapes and concatenation of the IDL
 literals of text

---
 include/xtypes/idl/grammar.hpp |   4 +-
 include/xtypes/idl/parser.hpp  | 217 ++++++++++++++++++++++++++++-----
 2 files changed, 188 insertions(+), 33 deletions(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index 20b7a14..f827409 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -193,14 +193,14 @@ INTEGER_LITERAL <- < OCT_LITERAL / HEX_LITERAL / DEC_LITERAL >
 DEC_LITERAL <- [1-9] DECIMAL_DIGIT* / '0'
 OCT_LITERAL <- '0' OCTAL_DIGIT+
 HEX_LITERAL <- '0' [xX] HEX_DIGIT+
-CHAR_LITERAL <- < "'" (!["'"\\] .)+ "'" > / "'" ESCAPE_SEQUENCE "'"
+CHAR_LITERAL <- < "'" (ESCAPE_SEQUENCE / (!['\\] .)+) "'" >
 WIDE_CHAR_LITERAL <- < 'L' CHAR_LITERAL >
 # String literals must avoid '\0' inside them. Check after parsing!
 STRING_LITERAL <- ( SUBSTRING_LITERAL )+
 SUBSTRING_LITERAL <- < '"' (ESCAPE_SEQUENCE / (!["\\] .))* '"' / "'" (ESCAPE_SEQUENCE / (!['\\] .))* "'"> STRING_WS
 ~STRING_WS <- '"' WS? '"' / WS?
 WIDE_STRING_LITERAL <- ('L' WIDE_SUBSTRING_LITERAL)+
-WIDE_SUBSTRING_LITERAL <- < SUBSTRING_LITERAL >
+WIDE_SUBSTRING_LITERAL <- < '"' (ESCAPE_SEQUENCE / (!["\\] .))* '"' / "'" (ESCAPE_SEQUENCE / (!['\\] .))* "'"> STRING_WS
 FLOAT_LITERAL <- <
     DECIMAL_DIGIT+ '.' DECIMAL_DIGIT* EXP_OR_SUFFIX? /
     '.' DECIMAL_DIGIT+ EXP_OR_SUFFIX? /
diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index ece7bd3..dc66e71 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1011,6 +1011,179 @@ private:
         outer->create_constant(std::string(identifier.data(), identifier.size()), expr);
     }
 
+    /// Appends a code point (or a code unit given by an escape sequence) to the text of a literal.
+    template<typename CHAR_T>
+    static void append_character(
+            std::basic_string<CHAR_T>& text,
+            uint32_t code,
+            bool is_unit)
+    {
+        if (is_unit || sizeof(CHAR_T) == sizeof(uint32_t))
+        {
+            text += static_cast<CHAR_T>(code);
+        }
+        else if (sizeof(CHAR_T) == sizeof(char))
+        {
+            auto aux = code_conversion_tool<XTYPES_CHAR>(std::u16string(1, static_cast<char16_t>(code)));
+            text.append(aux.begin(), aux.end());
+        }
+        else if (code > 0xFFFF)
+        {
+            text += static_cast<CHAR_T>(0xD800 + ((code - 0x10000) >> 10));
+            text += static_cast<CHAR_T>(0xDC00 + ((code - 0x10000) & 0x3FF));
+        }
+        else
+        {
+            text += static_cast<CHAR_T>(code);
+        }
+    }
+
+    /// Appends the content of a literal (without its quotes) to a text, solving the escape sequences.
+    template<typename CHAR_T>
+    void append_literal(
+            std::basic_string<CHAR_T>& text,
+            const std::string_view& literal,
+            const std::shared_ptr<peg::Ast>& ast) const
+    {
+        size_t first = literal.find_first_of("\"'");
+        if (first == std::string_view::npos)
+        {
+            first = 0;
+        }
+        else
+        {
+            ++first;
+        }
+        size_t last = literal.find_last_of("\"'");
+        if (last == std::string_view::npos || last < first)
+        {
+            last = literal.size();
+        }
+
+        auto number = [&](size_t& pos, size_t max_digits, uint32_t base) -> uint32_t
+                {
+                    uint32_t value = 0;
+                    for (size_t digits = 0; digits < max_digits && pos < last; ++digits, ++pos)
+                    {
+                        const char c = literal[pos];
+                        uint32_t digit = base;
+                        if (c >= '0' && c <= '9')
+                        {
+                            digit = c - '0';
+                        }
+                        else if (c >= 'a' && c <= 'f')
+                        {
+                            digit = 10 + c - 'a';
+                        }
+                        else if (c >= 'A' && c <= 'F')
+                        {
+                            digit = 10 + c - 'A';
+                        }
+                        if (digit >= base)
+                        {
+                            break;
+                        }
+                        value = value * base + digit;
+                    }
+                    return value;
+                };
+
+        size_t pos = first;
+        while (pos < last)
+        {
+            const char c = literal[pos++];
+            if (c != '\\' || pos == last)
+            {
+                const unsigned char lead = static_cast<unsigned char>(c);
+                if (sizeof(CHAR_T) == sizeof(char) || lead < 0x80)
+                {
+                    text += static_cast<CHAR_T>(lead);
+                    continue;
+                }
+
+                // UTF-8 character
+                const size_t length = lead >= 0xF0 ? 3 : lead >= 0xE0 ? 2 : 1;
+                uint32_t code = lead & (0x3F >> length);
+                bool valid = lead >= 0xC0 && lead < 0xF8 && pos + length <= last;
+                for (size_t i = 0; valid && i < length; ++i, ++pos)
+                {
+                    valid = (static_cast<unsigned char>(literal[pos]) & 0xC0) == 0x80;
+                    code = (code << 6) | (static_cast<unsigned char>(literal[pos]) & 0x3F);
+                }
+                if (!valid || code > 0x10FFFF)
+                {
+                    const std::string message = "Literal with an invalid character.";
+                    context_->log(log::LogLevel::xERROR, "EXCEPTION", message, ast);
+                    throw exception(message, ast);
+                }
+                append_character(text, code, false);
+                continue;
+            }
+
+            const char escaped = literal[pos++];
+            switch (escaped)
+            {
+                case 'n':
+                    text += static_cast<CHAR_T>('\n');
+                    break;
+                case 't':
+                    text += static_cast<CHAR_T>('\t');
+                    break;
+                case 'v':
+                    text += static_cast<CHAR_T>('\v');
+                    break;
+                case 'b':
+                    text += static_cast<CHAR_T>('\b');
+                    break;
+                case 'r':
+                    text += static_cast<CHAR_T>('\r');
+                    break;
+                case 'f':
+                    text += static_cast<CHAR_T>('\f');
+                    break;
+                case 'a':
+                    text += static_cast<CHAR_T>('\a');
+                    break;
+                case 'x':
+                    append_character(text, number(pos, 2, 16), true);
+                    break;
+                case 'u':
+                    append_character(text, number(pos, 4, 16), false);
+                    break;
+                case '0':
+                case '1':
+                case '2':
+                case '3':
+                case '4':
+                case '5':
+                case '6':
+                case '7':
+                    append_character(text, number(--pos, 3, 8), true);
+                    break;
+                default: // Backslash, question mark or quotes
+                    text += static_cast<CHAR_T>(escaped);
+                    break;
+            }
+        }
+    }
+
+    /// Content of a literal of characters or texts. The consecutive texts are concatenated.
+    template<typename CHAR_T>
+    std::basic_string<CHAR_T> literal_text(
+            const std::shared_ptr<peg::Ast>& ast) const
+    {
+        std::basic_string<CHAR_T> text;
+        if (ast->nodes.empty())
+        {
+            append_literal(text, ast->token, ast);
+        }
+        for (auto& node : ast->nodes) // SUBSTRING_LITERAL
+        {
+            append_literal(text, node->token, node);
+        }
+        return text;
+    }
+
     bool get_literal_value(
             DynamicData& data,
             const std::shared_ptr<peg::Ast>& ast,
@@ -1125,8 +1298,7 @@ private:
                 {
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("CHAR"), ast);
                 }
-                char value = literal.at(0);
-                data = value;
+                data = literal_text<char>(ast).at(0);
                 break;
             }
             case TypeKind::CHAR_16_TYPE:
@@ -1136,9 +1308,7 @@ private:
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("WIDE_CHAR"), ast);
                 }
 
-                std::basic_string<XTYPES_CHAR> aux(literal.begin(), literal.end());
-                auto temp = code_conversion_tool<char16_t>(aux);
-                data = temp[0];
+                data = literal_text<char16_t>(ast).at(0);
                 break;
             }
             case TypeKind::WIDE_CHAR_TYPE:
@@ -1148,52 +1318,37 @@ private:
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("WIDE_CHAR"), ast);
                 }
 
-                std::basic_string<XTYPES_CHAR> aux(literal.begin(), literal.end());
-                auto aux2 = code_conversion_tool<char16_t>(aux);
-                std::wstring temp(aux2.begin(), aux2.end());
-                data = temp[0];
+                data = literal_text<wchar_t>(ast).at(0);
                 break;
             }
             case TypeKind::STRING_TYPE:
             {
-                const auto& aux_view = literal.substr(literal.find("\"") + 1, literal.rfind("\"") - 1);
-                std::string aux(aux_view.data(), aux_view.size());
-                for (auto& node : ast->nodes) // SUBSTRING_LITERAL
-                {
-                    aux.append(node->token.substr(node->token.find("\"") + 1, node->token.rfind("\"") - 1));
-                }
-
-                if (tag != "STRING_LITERAL"_ && tag != "UNEXPECTED_LITERAL"_)
+                if (tag != "STRING_LITERAL"_ && tag != "SUBSTRING_LITERAL"_)
                 {
-                    context_->log(log::LogLevel::xWARNING, "STRING", message("STRING"), ast);
+                    context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("STRING"), ast);
                 }
 
-                data = aux;
+                data = literal_text<char>(ast);
                 break;
             }
             case TypeKind::WSTRING_TYPE:
             {
-                const auto& aux_view = literal.substr(literal.find("\"") + 1, literal.rfind("\"") - 1);
-                std::string aux(aux_view.data(), aux_view.size());
-                for (auto& node : ast->nodes) // SUBSTRING_LITERAL
-                {
-                    aux.append(node->token.substr(node->token.find("\"") + 1, node->token.rfind("\"") - 1));
-                }
-
                 if (tag != "WIDE_STRING_LITERAL"_ && tag != "WIDE_SUBSTRING_LITERAL"_)
                 {
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("WIDE_STRING"), ast);
                 }
 
-                std::basic_string<XTYPES_CHAR> aux2(literal.begin(), literal.end());
-                auto temp = code_conversion_tool<char16_t>(aux2);
-                data = std::wstring(temp.begin(), temp.end());
+                data = literal_text<wchar_t>(ast);
                 break;
             }
             case TypeKind::STRING16_TYPE:
             {
-                std::basic_string<XTYPES_CHAR> aux(literal.begin(), literal.end());
-                data = code_conversion_tool<char16_t>(aux);
+                if (tag != "WIDE_STRING_LITERAL"_ && tag != "WIDE_SUBSTRING_LITERAL"_)
+                {
+                    context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("WIDE_STRING"), ast);
+                }
+
+                data = literal_text<char16_t>(ast);
                 break;
             }
             case TypeKind::BOOLEAN_TYPE:
-- 
2.43.0


From 727d112c90d66de58e94c8386a6d03d96155b144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:41 +0000
Subject: [PATCH 59/89] fix: IDL constants defined with constants of other
 types and enumerators

---
 include/xtypes/idl/parser.hpp | 41 ++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index dc66e71..ff63bb8 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1413,6 +1413,45 @@ private:
         return true;
     }
 
+    /// Value, as the given type, of an already declared constant (or an enumerator of the given type).
+    DynamicData solve_constant(
+            const DynamicType& type,
+            const std::shared_ptr<peg::Ast>& ast,
+            std::shared_ptr<Module>& outer) const
+    {
+        const std::string name(ast->token);
+        DynamicData result(type);
+        const bool is_enum = result.type().kind() == TypeKind::ENUMERATION_TYPE;
+
+        if (outer->has_constant(name))
+        {
+            DynamicData value = outer->constant(name);
+            if (is_enum && value.type().kind() == TypeKind::UINT_32_TYPE)
+            {
+                result = value.value<uint32_t>();
+                return result;
+            }
+            if (result.type().is_compatible(value.type()) != TypeConsistency::NONE)
+            {
+                return DynamicData(value, result.type());
+            }
+        }
+        else if (is_enum)
+        {
+            const auto& enumeration = static_cast<const EnumerationType<uint32_t>&>(result.type());
+            auto it = enumeration.enumerators().find(name);
+            if (it != enumeration.enumerators().end())
+            {
+                result = it->second;
+                return result;
+            }
+        }
+
+        const std::string message = "\"" + name + "\" isn't a constant of the type \"" + type.name() + "\"";
+        context_->log(log::LogLevel::xERROR, "EXCEPTION", message, ast);
+        throw exception(message, ast);
+    }
+
     /// Checks that the operation between integers has a result.
     void check_operation(
             const DynamicData& lho,
@@ -1522,7 +1561,7 @@ private:
                 break;
             }
             case "SCOPED_NAME"_:
-                result = outer->constant(std::string(ast->token.data(), ast->token.size()));
+                result = solve_constant(type, ast, outer);
                 break;
             case "UNARY_EXPR"_:
             {
-- 
2.43.0


From 2b96b5fd858ef61302e717af62e06ea34c071a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:44 +0000
Subject: [PATCH 60/89] fix: IDL typedefs with several declarators

---
 include/xtypes/idl/grammar.hpp |  2 +-
 include/xtypes/idl/parser.hpp  | 34 +++++++++++-----------------------
 2 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index f827409..1cd6b1e 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -160,7 +160,7 @@ SIMPLE_DECLARATOR <- IDENTIFIER
 TYPEDEF_DLC <- KW_TYPEDEF TYPE_DECLARATOR
 TYPE_DECLARATOR <- (CONSTR_TYPE_DLC / TEMPLATE_TYPE_SPEC / SIMPLE_TYPE_SPEC) WS? ANY_DECLARATORS
 ANY_DECLARATORS <- ANY_DECLARATOR (COMMA ANY_DECLARATOR)*
-ANY_DECLARATOR <- ARRAY_DECLARATOR / SIMPLE_DECLARATOR /
+ANY_DECLARATOR <- ARRAY_DECLARATOR / SIMPLE_DECLARATOR
 DECLARATORS <- DECLARATOR (COMMA DECLARATOR)*
 DECLARATOR <- ARRAY_DECLARATOR / SIMPLE_DECLARATOR
 
diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index ff63bb8..715a29f 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -972,25 +972,11 @@ private:
         using namespace peg::udl;
 
         DynamicType::Ptr type = type_spec(ast->nodes[0], outer);
-        std::string name;
-        std::vector<size_t> dimensions;
-
-        if (ast->nodes[1]->tag == "IDENTIFIER"_)
+        for (auto& pair : identifier_list(ast->nodes[1], outer, context_->ignore_redefinition))
         {
-            name = resolve_identifier(ast, ast->nodes[1]->token, outer, context_->ignore_redefinition);
-        }
-        else if (ast->nodes[1]->tag == "ARRAY_DECLARATOR"_)
-        {
-            auto& node = ast->nodes[1];
-            name = resolve_identifier(node, node->nodes[0]->token, outer, context_->ignore_redefinition);
-            for (size_t idx = 1; idx < node->nodes.size(); ++idx)
-            {
-                dimensions.push_back(std::atoi(node->nodes[idx]->token.data()));
-            }
-            type = get_array_type(dimensions, type);
+            DynamicType::Ptr aliased = pair.second.empty() ? type : get_array_type(pair.second, type);
+            outer->create_alias(std::move(aliased), pair.first);
         }
-
-        outer->create_alias(std::move(type), name);
     }
 
     void const_dcl(
@@ -2393,7 +2379,8 @@ private:
 
     std::vector<std::pair<std::string, std::vector<size_t> > > identifier_list(
             const std::shared_ptr<peg::Ast>& node,
-            std::shared_ptr<Module>& outer)
+            std::shared_ptr<Module>& outer,
+            bool ignore_already_used = false)
     {
         using namespace peg::udl;
         std::vector<std::pair<std::string, std::vector<size_t> > > result;
@@ -2403,13 +2390,13 @@ private:
             // Multiple declaration
             for (auto& subnode : node->nodes)
             {
-                identifier(subnode, outer, result);
+                identifier(subnode, outer, result, ignore_already_used);
             }
         }
         else
         {
             // Only one declaration
-            identifier(node, outer, result);
+            identifier(node, outer, result, ignore_already_used);
         }
         return result;
     }
@@ -2417,7 +2404,8 @@ private:
     void identifier(
             const std::shared_ptr<peg::Ast>& node,
             std::shared_ptr<Module>& outer,
-            std::vector<std::pair<std::string, std::vector<size_t> > >& list)
+            std::vector<std::pair<std::string, std::vector<size_t> > >& list,
+            bool ignore_already_used = false)
     {
         using namespace peg::udl;
         std::string name;
@@ -2425,7 +2413,7 @@ private:
         switch (node->tag)
         {
             case "IDENTIFIER"_:
-                name = resolve_identifier(node, node->token, outer);
+                name = resolve_identifier(node, node->token, outer, ignore_already_used);
                 break;
             case "ARRAY_DECLARATOR"_:
             {
@@ -2435,7 +2423,7 @@ private:
                     {
                         case "IDENTIFIER"_:
                         {
-                            name = resolve_identifier(subnode, subnode->token, outer);
+                            name = resolve_identifier(subnode, subnode->token, outer, ignore_already_used);
                             break;
                         }
                         case "INTEGER_LITERAL"_:
-- 
2.43.0


From 57241f1d0395ce5a68d022e9af3a2b8c9ec539f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:44 +0000
Subject: [PATCH 61/89] fix: hexadecimal, octal and constant sizes in the IDL
 types

---
 include/xtypes/idl/parser.hpp | 151 ++++++++++------------------------
 1 file changed, 42 insertions(+), 109 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 715a29f..5a1809a 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -2175,23 +2175,8 @@ private:
             case "STRING_TYPE"_:
                 return StringType();
             case "STRING_SIZE"_:
-                if (outer->has_constant(token))
-                {
-                    return StringType(get_dimension(token, outer, node));
-                }
-                return StringType(std::atoi(token.c_str()));
+                return StringType(get_dimension(outer, node));
             case "WIDE_STRING_TYPE"_:
-                if (outer->has_constant(token))
-                {
-                    if (context_->wchar_type == Context::WCHAR_T)
-                    {
-                        return WStringType(get_dimension(token, outer, node));
-                    }
-                    else // CHAR16_T
-                    {
-                        return String16Type(get_dimension(token, outer, node));
-                    }
-                }
                 if (context_->wchar_type == Context::WCHAR_T)
                 {
                     return WStringType();
@@ -2203,11 +2188,11 @@ private:
             case "WSTRING_SIZE"_:
                 if (context_->wchar_type == Context::WCHAR_T)
                 {
-                    return WStringType(std::atoi(token.c_str()));
+                    return WStringType(get_dimension(outer, node));
                 }
                 else // CHAR16_T
                 {
-                    return String16Type(std::atoi(token.c_str()));
+                    return String16Type(get_dimension(outer, node));
                 }
             case "SEQUENCE_TYPE"_:
             {
@@ -2241,66 +2226,54 @@ private:
         return DynamicType::Ptr();
     }
 
-    size_t get_dimension(
-            const std::string& value,
+    uint32_t get_dimension(
             std::shared_ptr<Module>& outer,
             const std::shared_ptr<peg::Ast>& node)
     {
-        DynamicData c_data = outer->constant(value);
-        size_t dim = 0;
-        switch (c_data.type().kind())
+        const std::string token(node->token);
+        if (token.empty()) // Without bounds
         {
-            case TypeKind::INT_8_TYPE:
-                dim = c_data.value<int8_t>();
-                break;
-            case TypeKind::UINT_8_TYPE:
-                dim = c_data.value<uint8_t>();
-                break;
-            case TypeKind::INT_16_TYPE:
-                dim = c_data.value<int16_t>();
-                break;
-            case TypeKind::UINT_16_TYPE:
-                dim = c_data.value<uint16_t>();
-                break;
-            case TypeKind::INT_32_TYPE:
-                dim = c_data.value<int32_t>();
-                break;
-            case TypeKind::UINT_32_TYPE:
-                dim = c_data.value<uint32_t>();
-                break;
-            case TypeKind::INT_64_TYPE:
-                dim = c_data.value<int64_t>();
-                break;
-            case TypeKind::UINT_64_TYPE:
-                dim = c_data.value<uint64_t>();
-                break;
-            default:
-                context_->log(log::LogLevel::xERROR, "EXCEPTION",
-                        "Only a positive integer number can be used as dimension.",
-                        node);
-                throw exception("Only a positive integer number can be used as dimension.", node);
+            return 0;
         }
-        return dim;
-    }
-
-    size_t get_dimension(
-            std::shared_ptr<Module>& outer,
-            const std::shared_ptr<peg::Ast>& node)
-    {
-        using namespace peg::udl;
-
-        const auto& token_view = node->token;
-        const std::string token(token_view.data(), token_view.size());
 
-        if (node->tag == "SCOPED_NAME"_)
+        bool valid = true;
+        uint64_t dim = 0;
+        if (token[0] >= '0' && token[0] <= '9')
+        {
+            dim = std::strtoull(token.c_str(), nullptr, 0); // Decimal, octal or hexadecimal
+        }
+        else
         {
-            return get_dimension(token, outer, node);
+            DynamicData c_data = outer->constant(token);
+            switch (c_data.type().kind())
+            {
+                case TypeKind::INT_8_TYPE:
+                case TypeKind::INT_16_TYPE:
+                case TypeKind::INT_32_TYPE:
+                case TypeKind::INT_64_TYPE:
+                    valid = c_data.cast<int64_t>() >= 0;
+                    dim = c_data.cast<uint64_t>();
+                    break;
+                case TypeKind::UINT_8_TYPE:
+                case TypeKind::UINT_16_TYPE:
+                case TypeKind::UINT_32_TYPE:
+                case TypeKind::UINT_64_TYPE:
+                    dim = c_data.cast<uint64_t>();
+                    break;
+                default:
+                    valid = false;
+                    break;
+            }
         }
-        else if (!token.empty())
+
+        if (!valid || dim > std::numeric_limits<uint32_t>::max())
         {
-            return std::stoul(token);
+            context_->log(log::LogLevel::xERROR, "EXCEPTION",
+                    "Only a positive integer number can be used as dimension.",
+                    node);
+            throw exception("Only a positive integer number can be used as dimension.", node);
         }
-        return 0;
+        return static_cast<uint32_t>(dim);
     }
 
     ArrayType::Ptr get_array_type(
@@ -2427,49 +2400,9 @@ private:
                             break;
                         }
                         case "INTEGER_LITERAL"_:
-                        {
-                            dimensions.push_back(std::stoul(subnode->token.data()));
-                            break;
-                        }
                         case "SCOPED_NAME"_:
                         {
-                            DynamicData c_data =
-                                    outer->constant(std::string(subnode->token.data(),
-                                            subnode->token.size()));
-                            size_t dim = 0;
-                            switch (c_data.type().kind())
-                            {
-                                case TypeKind::INT_8_TYPE:
-                                    dim = c_data.value<int8_t>();
-                                    break;
-                                case TypeKind::UINT_8_TYPE:
-                                    dim = c_data.value<uint8_t>();
-                                    break;
-                                case TypeKind::INT_16_TYPE:
-                                    dim = c_data.value<int16_t>();
-                                    break;
-                                case TypeKind::UINT_16_TYPE:
-                                    dim = c_data.value<uint16_t>();
-                                    break;
-                                case TypeKind::INT_32_TYPE:
-                                    dim = c_data.value<int32_t>();
-                                    break;
-                                case TypeKind::UINT_32_TYPE:
-                                    dim = c_data.value<uint32_t>();
-                                    break;
-                                case TypeKind::INT_64_TYPE:
-                                    dim = c_data.value<int64_t>();
-                                    break;
-                                case TypeKind::UINT_64_TYPE:
-                                    dim = c_data.value<uint64_t>();
-                                    break;
-                                default:
-                                    context_->log(log::LogLevel::xERROR, "EXCEPTION",
-                                            "Only a positive intenger number can be used as dimension.",
-                                            node);
-                                    throw exception("Only a positive intenger number can be used as dimension.", node);
-                            }
-                            dimensions.push_back(dim);
+                            dimensions.push_back(get_dimension(outer, subnode));
                             break;
                         }
                     }
-- 
2.43.0


From 2561bd445cc8ad43c01b7d8add5d57fc7f85cd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:44 +0000
Subject: [PATCH 62/89] fix: IDL forward declarations of unions

---
 include/xtypes/idl/parser.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 5a1809a..2b08638 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1657,14 +1657,13 @@ private:
             throw exception(message.str(), ast);
         }
 
-        // TODO Replace by Unions. Kept as Struct to allow name solving.
-        // Union forward declaration may be an special case of Union,
-        // because they doesn't defines the switch type
-        StructType result(name);
+        // Kept as an union without case members to allow name solving. Its definition will replace it, because
+        // the forward declaration doesn't define the switch type.
+        UnionType result(name, primitive_type<int32_t>());
         context_->log(log::LogLevel::xDEBUG, "UNION_FW_DCL",
                 "Found forward union declaration: \"" + name + "\"",
                 ast);
-        outer->structure(std::move(result));
+        outer->union_switch(std::move(result));
     }
 
     void struct_def(
@@ -1772,7 +1771,9 @@ private:
                 {
                     type = type_spec(node, outer);
                     UnionType result(name, *type);
-                    outer->union_switch(std::move(result));
+                    // Replace its forward declaration
+                    bool forward = outer->has_union(name) && outer->union_switch(name).members().size() == 1;
+                    outer->union_switch(std::move(result), forward);
                     break;
                 }
                 case "SWITCH_BODY"_:
-- 
2.43.0


From 5651a7bf1baa012562ce954749b2d9610c4e91ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:45 +0000
Subject: [PATCH 63/89] fix: the identifiers of an outer IDL scope can be
 declared again

---
 include/xtypes/idl/parser.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 2b08638..4fe558b 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -869,7 +869,8 @@ private:
             context_->log(log::LogLevel::xINFO, "RESERVED_WORD", message.str(), ast);
         }
 
-        if (scope->has_symbol(std::string(identifier.data(), identifier.size())))
+        // The identifiers of the outer scopes can be declared again
+        if (scope->has_symbol(std::string(identifier.data(), identifier.size()), false))
         {
             std::stringstream message;
             message << "The identifier \"" << identifier << "\" is already used.";
-- 
2.43.0


From 69838a634190ebc55db5b2e267585a9e3fd632f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:48 +0000
Subject: [PATCH 64/89] fix: constant expressions and default as labels of the
 IDL unions

---
 include/xtypes/idl/grammar.hpp |  3 +-
 include/xtypes/idl/parser.hpp  | 59 +++++++++++++++++++++++++++-------
 2 files changed, 49 insertions(+), 13 deletions(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index 1cd6b1e..5a3f62c 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -148,7 +148,8 @@ UNION_DEF <- KW_UNION IDENTIFIER KW_SWITCH OPEN_PARENTHESES SWITCH_TYPE_SPEC CLO
 SWITCH_TYPE_SPEC <- INTEGER_TYPE / CHAR_TYPE / BOOLEAN_TYPE / WIDE_CHAR_TYPE / OCTET_TYPE / SCOPED_NAME
 SWITCH_BODY <- CASE+
 CASE <- CASE_LABEL+ ELEMENT_SPEC SEMICOLON
-CASE_LABEL <- KW_CASE < CONST_EXPR > COLON / < KW_DEFAULT > COLON
+CASE_LABEL <- KW_CASE CONST_EXPR COLON / DEFAULT_LABEL COLON
+DEFAULT_LABEL <- KW_DEFAULT
 ELEMENT_SPEC <- (ANNOTATION_APPL)* TYPE_SPEC DECLARATOR
 UNION_FORWARD_DCL <- KW_UNION < IDENTIFIER >
 ENUM_DCL <- KW_ENUM IDENTIFIER OPEN_BRACE ENUMERATOR (COMMA ENUMERATOR)* CLOSE_BRACE
diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 4fe558b..5a6801c 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -662,7 +662,14 @@ public:
 private:
 
     friend struct Context;
-    using LabelsCaseMemberPair = std::pair<std::vector<std::string>, Member>;
+
+    struct CaseLabels
+    {
+        std::vector<int64_t> values;
+        bool is_default = false;
+    };
+
+    using LabelsCaseMemberPair = std::pair<CaseLabels, Member>;
 
     peg::parser parser_;
     Context* context_;
@@ -1205,7 +1212,9 @@ private:
                 {
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("INTEGER"), ast);
                 }
-                int8_t value = static_cast<int8_t>(std::strtoll(literal.data(), nullptr, base));
+                int8_t value = (tag == "CHAR_LITERAL"_) // See CharType
+                    ? static_cast<int8_t>(literal_text<char>(ast).at(0))
+                    : static_cast<int8_t>(std::strtoll(literal.data(), nullptr, base));
                 data = value;
                 break;
             }
@@ -1215,7 +1224,9 @@ private:
                 {
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("INTEGER"), ast);
                 }
-                uint8_t value = static_cast<uint8_t>(std::strtoull(literal.data(), nullptr, base));
+                uint8_t value = (tag == "CHAR_LITERAL"_) // See CharType
+                    ? static_cast<uint8_t>(literal_text<char>(ast).at(0))
+                    : static_cast<uint8_t>(std::strtoull(literal.data(), nullptr, base));
                 data = value;
                 break;
             }
@@ -1808,7 +1819,7 @@ private:
             context_->log(log::LogLevel::xDEBUG, "UNION_DEF_MEMBER",
                     "Union \"" + name + "\" member: " + member.name(),
                     ast);
-            union_type.add_case_member(pair.first, std::move(member));
+            union_type.add_case_member(pair.first.values, std::move(member), pair.first.is_default);
         }
     }
 
@@ -1838,14 +1849,38 @@ private:
         }
     }
 
+    /// Value of the label of a case, which can be any constant expression of the type of the discriminator.
+    int64_t case_label(
+            const std::shared_ptr<peg::Ast>& ast,
+            std::shared_ptr<Module>& outer,
+            const DynamicType& type) const
+    {
+        using namespace peg::udl;
+        if (ast->tag == "SCOPED_NAME"_)
+        {
+            // The constants of an enumerated type are labels of any discriminator.
+            const std::string name(ast->token.data(), ast->token.size());
+            if (outer->has_constant(name))
+            {
+                return outer->constant(name).cast<int64_t>();
+            }
+        }
+        DynamicData label(type);
+        if (label.type().kind() == TypeKind::ENUMERATION_TYPE && ast->tag != "SCOPED_NAME"_)
+        {
+            return solve_expr(primitive_type<uint32_t>(), ast, outer).cast<int64_t>();
+        }
+        return solve_expr(type, ast, outer).cast<int64_t>();
+    }
+
     void switch_case(
             const std::shared_ptr<peg::Ast>& ast,
             std::shared_ptr<Module>& outer,
             std::vector<LabelsCaseMemberPair>& member_list,
-            const DynamicType::Ptr)
+            const DynamicType::Ptr type)
     {
         using namespace peg::udl;
-        std::vector<std::string> labels;
+        CaseLabels labels;
         std::vector<Member> member;
 
         for (const auto& node : ast->nodes)
@@ -1854,14 +1889,14 @@ private:
             {
                 case "CASE_LABEL"_:
                 {
-                    const auto& value_view = node->token;
-                    std::string value(value_view.data(), value_view.size());
-                    if (outer->has_constant(value))
+                    if (node->tag == "DEFAULT_LABEL"_)
+                    {
+                        labels.is_default = true;
+                    }
+                    else
                     {
-                        DynamicData constant = outer->constant(value);
-                        value = constant.cast<std::string>();
+                        labels.values.push_back(case_label(node, outer, *type));
                     }
-                    labels.emplace_back(std::move(value));
                     break;
                 }
                 case "ELEMENT_SPEC"_:
-- 
2.43.0


From 35209b615aba093d88a13982ad1d63ae825f75d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:51 +0000
Subject: [PATCH 65/89] fix: IDL keywords followed by anything that isn't part
 of an identifier

---
 include/xtypes/idl/grammar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index 5a3f62c..d5b47c7 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -189,7 +189,7 @@ ANNOTATION_APPL_PARAMS <- ANNOTATION_APPL_PARAM (COMMA ANNOTATION_APPL_PARAM)* /
 ANNOTATION_APPL_PARAM <- IDENTIFIER EQUAL_OP CONST_EXPR / CONST_EXPR
 
 # LITERALS
-BOOLEAN_LITERAL <- < "TRUE" / "FALSE" >
+BOOLEAN_LITERAL <- < "TRUE" / "FALSE" > END_KW
 INTEGER_LITERAL <- < OCT_LITERAL / HEX_LITERAL / DEC_LITERAL >
 DEC_LITERAL <- [1-9] DECIMAL_DIGIT* / '0'
 OCT_LITERAL <- '0' OCTAL_DIGIT+
@@ -248,7 +248,7 @@ FLOAT_TYPE_SUFFIX <- [dD]
 ~ES_UNICODE_CHAR <- HEX_DIGIT HEX_DIGIT? HEX_DIGIT? HEX_DIGIT?
 
 # Auxiliar tokens
-~END_KW <- !IDENTIFIER
+~END_KW <- ![0-9a-zA-Z_]
 # KEYWORDS
 ~KW_CONST <- WS? < "const" > END_KW WS?
 ~KW_MODULE <- WS? < "module" > END_KW WS?
-- 
2.43.0


From 0434dacf1f344c02f3ade0844cf79075b8dbe70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:52 +0000
Subject: [PATCH 66/89] fix: unsupported IDL types are errors and not an
 infinite recursion

---
 include/xtypes/idl/parser.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 5a6801c..fcbaf78 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -2146,6 +2146,12 @@ private:
             case "SCOPED_NAME"_: // Scoped name
             case "IDENTIFIER"_:
             {
+                if (node->original_tag != node->tag && node->original_tag != "TYPE_SPEC"_
+                        && node->tag == "IDENTIFIER"_)
+                {
+                    // Empty struct defined inside of a typedef
+                    build_on_ast(node, outer);
+                }
                 DynamicType::Ptr type = outer->type(token);
                 if (type.get() == nullptr)
                 {
@@ -2252,15 +2258,21 @@ private:
                 }
                 return MapType(*key_type, *inner_type, size);
             }
+            case "STRUCT_DEF"_:
+            case "UNION_DEF"_:
+            case "ENUM_DCL"_:
+            {
+                // Type defined inside of the typedef
+                build_on_ast(node, outer);
+                return type_spec(node->nodes[0], outer);
+            }
             default:
-                return type_spec(node, outer);
+                break;
         }
 
-        context_->log(log::LogLevel::xERROR, "UNKNOWN_TYPE",
-                token,
-                node);
-
-        return DynamicType::Ptr();
+        const std::string message = "Unsupported type \"" + node->name + "\"";
+        context_->log(log::LogLevel::xERROR, "UNKNOWN_TYPE", message, node);
+        throw exception(message, node);
     }
 
     uint32_t get_dimension(
-- 
2.43.0


From 7f385ba2866ecd36d5dbaf683d4aa28007b92f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:54 +0000
Subject: [PATCH 67/89] fix: IDL comments anywhere between tokens

---
 include/xtypes/idl/grammar.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index d5b47c7..95ed241 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -43,8 +43,8 @@ EOL <- '\r\n' / '\n' / '\r' / !.
 NL_ESCAPE <- '\\' EOL
 
 COMMENT <- LINE_COMMENT / BLOCK_COMMENT
-LINE_COMMENT <- [ \n]* KW_LINE_COMMENT (NL_ESCAPE / !EOL .)* EOL WS?
-BLOCK_COMMENT <- [ \n]* KW_OPEN_BLOCK_COMMENT (!KW_CLOSE_BLOCK_COMMENT .)* KW_CLOSE_BLOCK_COMMENT WS?
+LINE_COMMENT <- KW_LINE_COMMENT (NL_ESCAPE / !EOL .)* EOL
+BLOCK_COMMENT <- KW_OPEN_BLOCK_COMMENT (!KW_CLOSE_BLOCK_COMMENT .)* KW_CLOSE_BLOCK_COMMENT
 
 IDENTIFIER <- [a-zA-Z_][0-9a-zA-Z_]*
 
@@ -295,7 +295,7 @@ FLOAT_TYPE_SUFFIX <- [dD]
 ~KW_OPEN_BLOCK_COMMENT <- < "/*" >
 ~KW_CLOSE_BLOCK_COMMENT <- < "*/" >
 # SYMBOLS
-~WS <- COMMENT / [ \t\r\n]+
+~WS <- (COMMENT / [ \t\r\n])+
 ~SEMICOLON <- WS? < ';' > WS?
 ~COLON <- WS? < ':' > WS?
 ~DOUBLE_COLON <- "::"
-- 
2.43.0


From 4b9baa0e8adf5fd4ec21c25570808bd9d7f6796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:57 +0000
Subject: [PATCH 68/89] fix: several IDL annotations, and annotated enumerators

---
 include/xtypes/idl/grammar.hpp | 2 +-
 include/xtypes/idl/parser.hpp  | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index 95ed241..def7ea1 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -184,7 +184,7 @@ ANNOTATION_BODY <- (ANNOTATION_MEMBER / ENUM_DCL SEMICOLON / CONST_DCL SEMICOLON
 ANNOTATION_MEMBER <- WS? ANNOTATION_MEMBER_TYPE WS? SIMPLE_DECLARATOR (KW_DEFAULT CONST_EXPR)? SEMICOLON
 ANNOTATION_MEMBER_TYPE <- CONST_TYPE / ANY_CONST_TYPE / SCOPED_NAME
 ANY_CONST_TYPE <- KW_ANY
-ANNOTATION_APPL <- "@" SCOPED_NAME ( OPEN_PARENTHESES ANNOTATION_APPL_PARAMS CLOSE_PARENTHESES )?
+ANNOTATION_APPL <- WS? "@" SCOPED_NAME ( OPEN_PARENTHESES ANNOTATION_APPL_PARAMS CLOSE_PARENTHESES )? WS?
 ANNOTATION_APPL_PARAMS <- ANNOTATION_APPL_PARAM (COMMA ANNOTATION_APPL_PARAM)* / ANNOTATION_APPL_PARAM
 ANNOTATION_APPL_PARAM <- IDENTIFIER EQUAL_OP CONST_EXPR / CONST_EXPR
 
diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index fcbaf78..b72beb8 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1618,7 +1618,9 @@ private:
                 ast);
         for (size_t idx = 1; idx < ast->nodes.size(); ++idx)
         {
-            const auto& token_view = ast->nodes[idx]->token;
+            const auto& node = ast->nodes[idx];
+            // The identifier of an enumerator follows its annotations
+            const auto& token_view = node->nodes.empty() ? node->token : node->nodes.back()->token;
             const std::string token(token_view.data(), token_view.size());
             context_->log(log::LogLevel::xDEBUG, "ENUM_DCL_VALUE",
                     "Adding \"" + token + "\" to enum \"" + name + "\"",
-- 
2.43.0


From 61cf6f1de5e83ae7b4d6a54da57770e78c41675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:58 +0000
Subject: [PATCH 69/89] fix: escaped identifiers of IDL enumerations and
 constants

---
 include/xtypes/idl/parser.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index b72beb8..7f3bb71 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -994,7 +994,10 @@ private:
         using namespace peg::udl;
 
         DynamicType::Ptr type = type_spec(ast->nodes[0], outer);
-        const auto& identifier = ast->nodes[1]->token;
+        const auto& token = ast->nodes[1]->token;
+        const std::string identifier = (token.front() == '_')
+            ? resolve_identifier(ast->nodes[1], token, outer, true) // Escaped identifier
+            : std::string(token.data(), token.size());
         DynamicData expr(*type);
         expr = solve_expr(*type, ast->nodes[2], outer);
 
@@ -1002,7 +1005,7 @@ private:
         message << "Found const " << type->name() << " " << identifier << " = " << expr.to_string();
         context_->log(log::LogLevel::xDEBUG, "DECLARATION", message.str(), ast);
 
-        outer->create_constant(std::string(identifier.data(), identifier.size()), expr);
+        outer->create_constant(identifier, expr);
     }
 
     /// Appends a code point (or a code unit given by an escape sequence) to the text of a literal.
@@ -1610,8 +1613,7 @@ private:
     {
         using namespace peg::udl;
 
-        const auto& name_view = ast->nodes[0]->token;
-        const std::string name(name_view.data(), name_view.size());
+        const std::string name = resolve_identifier(ast->nodes[0], ast->nodes[0]->token, outer, true);
         EnumerationType<uint32_t> result(name); // TODO: Support other Enum types?, the grammar should be upgraded.
         context_->log(log::LogLevel::xDEBUG, "ENUM_DCL",
                 "Found enum \"" + name + "\"",
@@ -1621,7 +1623,7 @@ private:
             const auto& node = ast->nodes[idx];
             // The identifier of an enumerator follows its annotations
             const auto& token_view = node->nodes.empty() ? node->token : node->nodes.back()->token;
-            const std::string token(token_view.data(), token_view.size());
+            const std::string token = resolve_identifier(node, token_view, outer, true);
             context_->log(log::LogLevel::xDEBUG, "ENUM_DCL_VALUE",
                     "Adding \"" + token + "\" to enum \"" + name + "\"",
                     ast);
-- 
2.43.0


From b19d7f9427dc0505f7d5506eacc5b2a78652a624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:01 +0000
Subject: [PATCH 70/89] fix: line markers of the preprocessor inside of IDL
 definitions

---
 include/xtypes/idl/grammar.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index def7ea1..0f1c962 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -30,7 +30,7 @@ inline const char* idl_grammar()
 # Tested at: https://yhirose.github.io/cpp-peglib/
 
 # Building Block Core Data Types:
-DOCUMENT <- WS? SPECIFICATION WS?
+DOCUMENT <- SPECIFICATION WS?
 SPECIFICATION <- DEFINITION+
 DEFINITION <- (MODULE_DCL / CONST_DCL / TYPE_DCL / ANNOTATION_DCL) SEMICOLON / PREPROCESSOR_DIRECTIVE
 
@@ -38,10 +38,13 @@ MODULE_DCL <- (ANNOTATION_APPL)* KW_MODULE IDENTIFIER OPEN_BRACE DEFINITION+ CLO
 #SCOPED_NAME <- DOUBLE_COLON IDENTIFIER / (IDENTIFIER DOUBLE_COLON)* IDENTIFIER
 SCOPED_NAME <- < IDENTIFIER DOUBLE_COLON SCOPED_NAME / DOUBLE_COLON SCOPED_NAME / IDENTIFIER >
 
-PREPROCESSOR_DIRECTIVE <- WS? < '#' (NL_ESCAPE / !EOL .)* > EOL
+PREPROCESSOR_DIRECTIVE <- (COMMENT / [ \t\r\n])* < '#' (NL_ESCAPE / !EOL .)* > EOL
 EOL <- '\r\n' / '\n' / '\r' / !.
 NL_ESCAPE <- '\\' EOL
 
+# The preprocessor writes line markers anywhere
+LINE_MARKER <- '#' [ \t]+ DECIMAL_DIGIT+ (!EOL .)* EOL
+
 COMMENT <- LINE_COMMENT / BLOCK_COMMENT
 LINE_COMMENT <- KW_LINE_COMMENT (NL_ESCAPE / !EOL .)* EOL
 BLOCK_COMMENT <- KW_OPEN_BLOCK_COMMENT (!KW_CLOSE_BLOCK_COMMENT .)* KW_CLOSE_BLOCK_COMMENT
@@ -295,7 +298,7 @@ FLOAT_TYPE_SUFFIX <- [dD]
 ~KW_OPEN_BLOCK_COMMENT <- < "/*" >
 ~KW_CLOSE_BLOCK_COMMENT <- < "*/" >
 # SYMBOLS
-~WS <- (COMMENT / [ \t\r\n])+
+~WS <- (COMMENT / LINE_MARKER / [ \t\r\n])+
 ~SEMICOLON <- WS? < ';' > WS?
 ~COLON <- WS? < ':' > WS?
 ~DOUBLE_COLON <- "::"
-- 
2.43.0


From f951c8e9c30ee18f40360558b0bd77dfc75fe868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:01 +0000
Subject: [PATCH 71/89] fix: the shell changes the IDL text to preprocess

---
 include/xtypes/idl/parser.hpp | 41 ++++++++++++++---------------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 7f3bb71..7fedbef 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -258,10 +258,10 @@ public:
         std::string args;
         for (const std::string& inc_path : include_paths)
         {
-            args += include_flag + inc_path + " ";
+            args += include_flag + quote(inc_path) + " ";
         }
 
-        std::string cmd = preprocessor_exec + " " + args + idl_file + error_redir;
+        std::string cmd = preprocessor_exec + " " + args + quote(idl_file) + error_redir;
 
         log(log::LogLevel::xDEBUG, "PREPROCESS",
                 "Calling preprocessor with command: " + cmd);
@@ -307,27 +307,20 @@ private:
     }
 #endif // _MSC_VER
 
-    void replace_all_string(
-            std::string& str,
-            const std::string& from,
-            const std::string& to) const
+    /// Quotes a text to be an argument of a command of the shell.
+    static std::string quote(
+            const std::string& text)
     {
-        size_t froms = from.size();
-        size_t tos = to.size();
-        size_t pos = str.find(from);
-        const std::string escaped = "\\\\\"";
-        size_t escaped_size = escaped.size();
-        while (pos != std::string::npos)
+#ifdef _MSC_VER
+        return "\"" + text + "\"";
+#else
+        std::string result = "'";
+        for (char c : text)
         {
-            str.replace(pos, froms, to);
-            pos = str.find(from, pos + tos);
-            while (str[pos - 1] == '\\')
-            {
-                str.replace(pos, froms, escaped);
-                pos = str.find(from, pos + escaped_size);
-            }
-
+            result += (c == '\'') ? std::string("'\\''") : std::string(1, c);
         }
+        return result + "'";
+#endif // _MSC_VER
     }
 
     std::string exec(
@@ -365,12 +358,10 @@ inline std::string PreprocessorContext::preprocess_string<PreprocessorContext::p
     std::string args;
     for (const std::string& inc_path : include_paths)
     {
-        args += include_flag + inc_path + " ";
+        args += include_flag + quote(inc_path) + " ";
     }
-    // Escape double quotes inside the idl_string
-    std::string escaped_idl_string = idl_string;
-    replace_all_string(escaped_idl_string, "\"", "\\\"");
-    std::string cmd = "echo \"" + escaped_idl_string + "\" | "
+    // The shell must not change the idl_string
+    std::string cmd = "printf '%s\\n' " + quote(idl_string) + " | "
             + preprocessor_exec + " " + args + error_redir;
 
     log(log::LogLevel::xDEBUG, "PREPROCESS",
-- 
2.43.0


From db9e2bbbf98a83b33cc12bf3814212800f25201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:57 +0000
Subject: [PATCH 72/89] fix: IDL unions with only one case

---
 include/xtypes/idl/parser.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 7fedbef..ca0941d 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1825,6 +1825,12 @@ private:
             const DynamicType::Ptr type)
     {
         using namespace peg::udl;
+        if (ast->tag == "CASE"_)
+        {
+            // A body with only one case is reduced to it
+            switch_case(ast, outer, member_list, type);
+            return;
+        }
         for (const auto& node : ast->nodes)
         {
             switch (node->original_tag)
-- 
2.43.0


From b971070ec22911c97376d7315aeaf97b940fe065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:59 +0000
Subject: [PATCH 73/89] fix: IDL constants of type octet

---
 include/xtypes/idl/grammar.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index 0f1c962..b37bf48 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -62,6 +62,7 @@ CONST_TYPE <-
     CHAR_TYPE /
     WIDE_CHAR_TYPE /
     BOOLEAN_TYPE /
+    OCTET_TYPE /
     STRING_TYPE /
     WIDE_STRING_TYPE /
     SCOPED_NAME
-- 
2.43.0


From ddf0b0ae3f9508430d62def3a97acbe7a25eb479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:05 +0000
Subject: [PATCH 74/89] fix: references to escaped IDL identifiers

---
 include/xtypes/idl/parser.hpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index ca0941d..7990e7a 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -840,6 +840,21 @@ private:
         return scope;
     }
 
+    /// Name which a scoped name refers to: its escaped identifiers don't have the underscore.
+    static std::string scoped_name(
+            const std::string_view& token)
+    {
+        std::string result;
+        for (size_t idx = 0; idx < token.size(); ++idx)
+        {
+            if (token[idx] != '_' || (idx > 0 && token[idx - 1] != ':'))
+            {
+                result += token[idx];
+            }
+        }
+        return result;
+    }
+
     std::string resolve_identifier(
             const std::shared_ptr<peg::Ast>& ast,
             const std::string_view& identifier,
@@ -1411,7 +1426,7 @@ private:
             const std::shared_ptr<peg::Ast>& ast,
             std::shared_ptr<Module>& outer) const
     {
-        const std::string name(ast->token);
+        const std::string name = scoped_name(ast->token);
         DynamicData result(type);
         const bool is_enum = result.type().kind() == TypeKind::ENUMERATION_TYPE;
 
@@ -1680,7 +1695,7 @@ private:
         using namespace peg::udl;
         std::string name;
         std::vector<Member> member_list;
-        std::string_view parent_name;
+        std::string parent_name;
         for (const auto& node : ast->nodes)
         {
             switch (node->original_tag)
@@ -1693,9 +1708,9 @@ private:
                     break;
                 }
                 case "INHERITANCE"_:
-                    if (outer->has_structure(std::string(node->token.data(), node->token.size())))
+                    if (outer->has_structure(scoped_name(node->token)))
                     {
-                        parent_name = node->token;
+                        parent_name = scoped_name(node->token);
                     }
                     else
                     {
@@ -1742,7 +1757,7 @@ private:
         if (!parent_name.empty())
         {
             // Replace already existing struct with a new one which inherits
-            StructType replace_struct(name, &outer->structure(std::string(parent_name.data(), parent_name.size())));
+            StructType replace_struct(name, &outer->structure(parent_name));
             outer->structure(std::move(replace_struct), true);
             struct_type = &outer->structure(name);
         }
@@ -1860,7 +1875,7 @@ private:
         if (ast->tag == "SCOPED_NAME"_)
         {
             // The constants of an enumerated type are labels of any discriminator.
-            const std::string name(ast->token.data(), ast->token.size());
+            const std::string name = scoped_name(ast->token);
             if (outer->has_constant(name))
             {
                 return outer->constant(name).cast<int64_t>();
@@ -2153,7 +2168,7 @@ private:
                     // Empty struct defined inside of a typedef
                     build_on_ast(node, outer);
                 }
-                DynamicType::Ptr type = outer->type(token);
+                DynamicType::Ptr type = outer->type(scoped_name(token));
                 if (type.get() == nullptr)
                 {
                     context_->log(log::LogLevel::xERROR, "EXCEPTION",
@@ -2294,7 +2309,7 @@ private:
         }
         else
         {
-            DynamicData c_data = outer->constant(token);
+            DynamicData c_data = outer->constant(scoped_name(token));
             switch (c_data.type().kind())
             {
                 case TypeKind::INT_8_TYPE:
-- 
2.43.0


From a128edbe793a7a03c1b8fc29cd47847cdb443e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:12 +0000
Subject: [PATCH 75/89] fix: identifiers declared twice in an IDL scope

---
 include/xtypes/idl/parser.hpp | 38 +++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 7990e7a..67c66dd 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -867,6 +867,10 @@ private:
             message << "The identifier \"" << identifier << "\" is escaped. It will be replaced by \""
                     << identifier.substr(1) << "\"";
             context_->log(log::LogLevel::xINFO, "ESCAPED_IDENTIFIER", message.str(), ast);
+            if (!ignore_already_used)
+            {
+                check_not_declared(ast, std::string(identifier.substr(1)), scope);
+            }
             return std::string(identifier.substr(1).data(), identifier.substr(1).size()); // If the identifier starts with "_", remove the underscode and return.
         }
 
@@ -900,6 +904,25 @@ private:
         return std::string(identifier.data(), identifier.size());
     }
 
+    /// Checks that an identifier, which is going to be declared, isn't a symbol of the scope.
+    void check_not_declared(
+            const std::shared_ptr<peg::Ast>& ast,
+            const std::string& name,
+            const std::shared_ptr<Module>& scope) const
+    {
+        if (scope->has_symbol(name, false))
+        {
+            const std::string msg = "The identifier \"" + name + "\" was already declared.";
+            if (context_->ignore_redefinition)
+            {
+                context_->log(log::LogLevel::xINFO, "REDEFINITION", msg, ast);
+                return;
+            }
+            context_->log(log::LogLevel::xERROR, "EXCEPTION", msg, ast);
+            throw exception(msg, ast);
+        }
+    }
+
     void to_lower(
             std::string& str)
     {
@@ -1011,6 +1034,7 @@ private:
         message << "Found const " << type->name() << " " << identifier << " = " << expr.to_string();
         context_->log(log::LogLevel::xDEBUG, "DECLARATION", message.str(), ast);
 
+        check_not_declared(ast, identifier, outer);
         outer->create_constant(identifier, expr);
     }
 
@@ -1620,6 +1644,7 @@ private:
         using namespace peg::udl;
 
         const std::string name = resolve_identifier(ast->nodes[0], ast->nodes[0]->token, outer, true);
+        check_not_declared(ast, name, outer);
         EnumerationType<uint32_t> result(name); // TODO: Support other Enum types?, the grammar should be upgraded.
         context_->log(log::LogLevel::xDEBUG, "ENUM_DCL",
                 "Found enum \"" + name + "\"",
@@ -1633,6 +1658,7 @@ private:
             context_->log(log::LogLevel::xDEBUG, "ENUM_DCL_VALUE",
                     "Adding \"" + token + "\" to enum \"" + name + "\"",
                     ast);
+            check_not_declared(node, token, outer);
             result.add_enumerator(token);
             // Little hack. Don't judge me.
             DynamicData hack(primitive_type<uint32_t>());
@@ -1703,6 +1729,10 @@ private:
                 case "IDENTIFIER"_:
                 {
                     name = resolve_identifier(ast, node->token, outer, true);
+                    if (!outer->has_structure(name))
+                    {
+                        check_not_declared(ast, name, outer);
+                    }
                     StructType result(name);
                     outer->structure(std::move(result));
                     break;
@@ -1730,6 +1760,10 @@ private:
         if (name.empty() && ast->tag == "IDENTIFIER"_)
         {
             name = resolve_identifier(ast, ast->token, outer, true);
+            if (!outer->has_structure(name))
+            {
+                check_not_declared(ast, name, outer);
+            }
             StructType result(name);
             outer->structure(std::move(result));
         }
@@ -1792,6 +1826,10 @@ private:
                 case "SCOPED_NAME"_:
                 {
                     type = type_spec(node, outer);
+                    if (!outer->has_union(name))
+                    {
+                        check_not_declared(ast, name, outer);
+                    }
                     UnionType result(name, *type);
                     // Replace its forward declaration
                     bool forward = outer->has_union(name) && outer->union_switch(name).members().size() == 1;
-- 
2.43.0


From a6bfa980e33453d207330394e8b1b75daf7a6456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:42 +0000
Subject: [PATCH 76/89] fix: the generated IDL constants of enumerations are
 enumerators

---
 include/xtypes/idl/generator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index 0bf325a..c02d8c0 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -514,6 +514,8 @@ inline std::string get_const_value(
             return float_literal(data.value<double>());
         case TypeKind::FLOAT_128_TYPE:
             return float_literal(data.value<long double>());
+        case TypeKind::ENUMERATION_TYPE:
+            return label_value(data.value<uint32_t>(), data.type());
         default:
             return data.cast<std::string>();
     }
-- 
2.43.0


From 4da0397cd1f50d0b802f3c79d45bd2c18c6740a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:40 +0000
Subject: [PATCH 77/89] fix: IDL members can be named as the symbols of their
 scope

---
 include/xtypes/idl/parser.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 67c66dd..2755b6b 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -923,6 +923,20 @@ private:
         }
     }
 
+    /// Checks that a member isn't named as the type that has it.
+    void check_member_name(
+            const std::shared_ptr<peg::Ast>& ast,
+            const std::string& type_name,
+            const Member& member) const
+    {
+        if (member.name() == type_name)
+        {
+            const std::string msg = "The identifier \"" + member.name() + "\" is already used.";
+            context_->log(log::LogLevel::xERROR, "EXCEPTION", msg, ast);
+            throw exception(msg, ast);
+        }
+    }
+
     void to_lower(
             std::string& str)
     {
@@ -1798,6 +1812,7 @@ private:
 
         for (auto& member : member_list)
         {
+            check_member_name(ast, name, member);
             context_->log(log::LogLevel::xDEBUG, "STRUCT_DEF_MEMBER",
                     "Struct \"" + name + "\" member: {" + member.name() +
                     ": " + member.type().name() + "}", ast);
@@ -1864,6 +1879,7 @@ private:
         for (auto& pair : member_list)
         {
             Member& member = pair.second;
+            check_member_name(ast, name, member);
             context_->log(log::LogLevel::xDEBUG, "UNION_DEF_MEMBER",
                     "Union \"" + name + "\" member: " + member.name(),
                     ast);
@@ -1985,7 +2001,7 @@ private:
                     type = type_spec(node, outer);
                     break;
                 case "DECLARATOR"_:
-                    identifier(node, outer, pairs);
+                    identifier(node, outer, pairs, true);
                     break;
             }
         }
@@ -2419,7 +2435,8 @@ private:
         using id_pair = std::pair<std::string, std::vector<size_t> >;
         using id_pair_vector = std::vector<id_pair>;
 
-        id_pair_vector pairs = identifier_list(ast, outer);
+        // The identifiers of the members aren't symbols of the outer scopes
+        id_pair_vector pairs = identifier_list(ast, outer, true);
         for (id_pair& pair : pairs)
         {
             std::string name = pair.first;
-- 
2.43.0


From 29ec6956163769d531aba360acfba03bdb4a006c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:40 +0000
Subject: [PATCH 78/89] fix: enumerators hidden by IDL constants of other types

---
 include/xtypes/idl/parser.hpp | 42 +++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 2755b6b..7d91d10 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1458,6 +1458,28 @@ private:
         return true;
     }
 
+    /// Checks if a name is an enumerator of the given type. Its enumerators are preferred to the constants of the
+    /// scope with the same name, unless they are constants of that type.
+    bool is_enumerator(
+            const DynamicType& type,
+            const std::string& name,
+            const std::shared_ptr<Module>& outer) const
+    {
+        if (type.kind() != TypeKind::ENUMERATION_TYPE
+                || static_cast<const EnumerationType<uint32_t>&>(type).enumerators().count(name) == 0)
+        {
+            return false;
+        }
+        if (!outer->has_constant(name))
+        {
+            return true;
+        }
+        const DynamicData constant = outer->constant(name);
+        return constant.type().kind() != TypeKind::ENUMERATION_TYPE
+               || static_cast<const EnumerationType<uint32_t>&>(constant.type()).enumerators()
+               != static_cast<const EnumerationType<uint32_t>&>(type).enumerators();
+    }
+
     /// Value, as the given type, of an already declared constant (or an enumerator of the given type).
     DynamicData solve_constant(
             const DynamicType& type,
@@ -1468,6 +1490,12 @@ private:
         DynamicData result(type);
         const bool is_enum = result.type().kind() == TypeKind::ENUMERATION_TYPE;
 
+        if (is_enumerator(result.type(), name, outer))
+        {
+            result = static_cast<const EnumerationType<uint32_t>&>(result.type()).value(name);
+            return result;
+        }
+
         if (outer->has_constant(name))
         {
             DynamicData value = outer->constant(name);
@@ -1481,16 +1509,6 @@ private:
                 return DynamicData(value, result.type());
             }
         }
-        else if (is_enum)
-        {
-            const auto& enumeration = static_cast<const EnumerationType<uint32_t>&>(result.type());
-            auto it = enumeration.enumerators().find(name);
-            if (it != enumeration.enumerators().end())
-            {
-                result = it->second;
-                return result;
-            }
-        }
 
         const std::string message = "\"" + name + "\" isn't a constant of the type \"" + type.name() + "\"";
         context_->log(log::LogLevel::xERROR, "EXCEPTION", message, ast);
@@ -1926,16 +1944,16 @@ private:
             const DynamicType& type) const
     {
         using namespace peg::udl;
+        DynamicData label(type);
         if (ast->tag == "SCOPED_NAME"_)
         {
             // The constants of an enumerated type are labels of any discriminator.
             const std::string name = scoped_name(ast->token);
-            if (outer->has_constant(name))
+            if (!is_enumerator(label.type(), name, outer) && outer->has_constant(name))
             {
                 return outer->constant(name).cast<int64_t>();
             }
         }
-        DynamicData label(type);
         if (label.type().kind() == TypeKind::ENUMERATION_TYPE && ast->tag != "SCOPED_NAME"_)
         {
             return solve_expr(primitive_type<uint32_t>(), ast, outer).cast<int64_t>();
-- 
2.43.0


From 7f0aa4442a7f58c8a37a3b5249ecb3cc44792a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:06 +0000
Subject: [PATCH 79/89] fix: complement of unsigned integers in the IDL
 expressions

---
 include/xtypes/idl/parser.hpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 7d91d10..a4c375f 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1515,6 +1515,31 @@ private:
         throw exception(message, ast);
     }
 
+    /// Complement of an integer, signed or not.
+    DynamicData complement(
+            const DynamicData& data) const
+    {
+        DynamicData result(data.type());
+        switch (data.type().kind())
+        {
+            case TypeKind::UINT_8_TYPE:
+                result = static_cast<uint8_t>(~data.value<uint8_t>());
+                break;
+            case TypeKind::UINT_16_TYPE:
+                result = static_cast<uint16_t>(~data.value<uint16_t>());
+                break;
+            case TypeKind::UINT_32_TYPE:
+                result = ~data.value<uint32_t>();
+                break;
+            case TypeKind::UINT_64_TYPE:
+                result = ~data.value<uint64_t>();
+                break;
+            default:
+                return ~data;
+        }
+        return result;
+    }
+
     /// Checks that the operation between integers has a result.
     void check_operation(
             const DynamicData& lho,
@@ -1643,7 +1668,7 @@ private:
                 }
                 else if (ast->nodes[0]->tag == "NEG_OP"_)
                 {
-                    DynamicData temp(~result);
+                    DynamicData temp(complement(result));
                     result = temp;
                 }
             }
-- 
2.43.0


From c500a8ae4b526104560a40bc861cc8d338645b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:55 +0000
Subject: [PATCH 80/89] fix: the results of the previous parse are cleaned up

---
 include/xtypes/idl/parser.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index a4c375f..9d281b7 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -476,6 +476,18 @@ private:
     friend class Parser;
     std::shared_ptr<Parser> instance_;
     std::shared_ptr<idl::Module> module_;
+    bool has_results_ = false;
+
+    // Starts the results of a parse, cleaning up the ones of the previous parse
+    void start_results()
+    {
+        if (clear && has_results_)
+        {
+            module_.reset();
+        }
+        has_results_ = true;
+        success = false;
+    }
 };
 
 inline const Context Context::DEFAULT_CONTEXT;
@@ -531,6 +543,7 @@ public:
     {
         context.instance_ = shared_from_this();
         context_ = &context;
+        context.start_results();
         std::shared_ptr<peg::Ast> ast;
 
         if (!parser_.parse(idl_string.c_str(), ast))
-- 
2.43.0


From d08123b8a0fd1ee584093fc59c7a842d3ab7b025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:35 +0000
Subject: [PATCH 81/89] fix: names with an empty scope inside are not found,
 instead of looked for forever

---
 include/xtypes/idl/Module.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 16a43a4..5184cca 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -725,9 +725,9 @@ protected:
             const std::string& original_name,
             bool first = false) const
     {
-        if (!first && symbol_name == original_name)
+        if (!first && (symbol_name == original_name || symbol_name.find("::") == 0))
         {
-            // Loop trying to resolve the name. Abort failing.
+            // Loop trying to resolve the name, or a name with an empty scope inside. Abort failing.
             PairModuleSymbol pair;
             pair.first = nullptr;
             pair.second = original_name;
-- 
2.43.0


From b479aa9615c5a70298c1fd96a7479f0a620a0224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:29 +0000
Subject: [PATCH 82/89] fix: the IDL texts longer than a command are
 preprocessed

---
 include/xtypes/idl/parser.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 9d281b7..7541715 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -360,14 +360,24 @@ inline std::string PreprocessorContext::preprocess_string<PreprocessorContext::p
     {
         args += include_flag + quote(inc_path) + " ";
     }
-    // The shell must not change the idl_string
-    std::string cmd = "printf '%s\\n' " + quote(idl_string) + " | "
-            + preprocessor_exec + " " + args + error_redir;
-
     log(log::LogLevel::xDEBUG, "PREPROCESS",
             "Calling preprocessor '" + preprocessor_exec + "' for an IDL string.");
 
-    return exec(cmd);
+    // The shell must not change the idl_string
+    const std::string quoted = quote(idl_string);
+    const size_t max_command_text = 65536;
+    if (quoted.size() > max_command_text)
+    {
+        // The length of the commands is limited
+        auto [os, tmp] = get_temporary_file();
+        os << idl_string << std::endl;
+        os.close();
+        auto processed = exec(preprocessor_exec + " " + args + error_redir + " < " + quote(tmp.string()));
+        std::filesystem::remove(tmp);
+        return processed;
+    }
+
+    return exec("printf '%s\\n' " + quoted + " | " + preprocessor_exec + " " + args + error_redir);
 }
 
 // preprocessing using files
-- 
2.43.0


From b10bb62cef2c2da5fb7a4f6ce72ed9d0c9972865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:14 +0000
Subject: [PATCH 83/89] fix: texts can be parsed by several threads at the same
 time

---
 include/xtypes/idl/parser.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 7541715..531de88 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -509,9 +509,9 @@ public:
 
     static std::shared_ptr<Parser> instance(bool create = true)
     {
+        std::lock_guard<std::mutex> _(mtx_);
         if (!instance_ && create)
         {
-            std::lock_guard<std::mutex> _(mtx_);
             instance_ = std::make_shared<Parser>();
         }
 
@@ -551,6 +551,7 @@ public:
             const std::string& idl_string,
             Context& context)
     {
+        std::lock_guard<std::mutex> _(parse_mtx_);
         context.instance_ = shared_from_this();
         context_ = &context;
         context.start_results();
@@ -593,11 +594,9 @@ public:
             Context& context)
     {
         context.instance_ = shared_from_this();
-        context_ = &context;
-        std::shared_ptr<peg::Ast> ast;
-        if (context_->preprocess)
+        if (context.preprocess)
         {
-            std::string file_content = context_->preprocess_file(idl_file);
+            std::string file_content = context.preprocess_file(idl_file);
             return parse(file_content, context);
         }
 
@@ -625,6 +624,7 @@ public:
     void get_all_types(
             std::map<std::string, DynamicType::Ptr>& types_map)
     {
+        std::lock_guard<std::mutex> _(parse_mtx_);
         if(context_)
         {
             context_->module().fill_all_types(types_map);
@@ -687,6 +687,7 @@ private:
 
     peg::parser parser_;
     Context* context_;
+    std::mutex parse_mtx_; // A parser parses one text at a time, as the context is its own
     static std::shared_ptr<Parser> instance_;
     static std::mutex mtx_;
 
-- 
2.43.0


From 86aef00b8b9317de70b08bf056d8f8784c8ba68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:40 +0000
Subject: [PATCH 84/89] fix: constants aren't named as keywords, unless it is
 allowed

---
 include/xtypes/idl/parser.hpp | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 531de88..5f1e874 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -898,17 +898,7 @@ private:
             return std::string(identifier.substr(1).data(), identifier.substr(1).size()); // If the identifier starts with "_", remove the underscode and return.
         }
 
-        if (is_token(identifier))
-        {
-            std::stringstream message;
-            message << "The identifier \"" << identifier << "\" is a reserved word.";
-            if (!context_->allow_keyword_identifiers)
-            {
-                context_->log(log::LogLevel::xERROR, "EXCEPTION", message.str(), ast);
-                throw exception(message.str(), ast);
-            }
-            context_->log(log::LogLevel::xINFO, "RESERVED_WORD", message.str(), ast);
-        }
+        check_reserved_word(ast, identifier);
 
         // The identifiers of the outer scopes can be declared again
         if (scope->has_symbol(std::string(identifier.data(), identifier.size()), false))
@@ -928,6 +918,24 @@ private:
         return std::string(identifier.data(), identifier.size());
     }
 
+    /// Checks that an identifier isn't a reserved word, unless they are allowed.
+    void check_reserved_word(
+            const std::shared_ptr<peg::Ast>& ast,
+            const std::string_view& identifier)
+    {
+        if (is_token(identifier))
+        {
+            std::stringstream message;
+            message << "The identifier \"" << identifier << "\" is a reserved word.";
+            if (!context_->allow_keyword_identifiers)
+            {
+                context_->log(log::LogLevel::xERROR, "EXCEPTION", message.str(), ast);
+                throw exception(message.str(), ast);
+            }
+            context_->log(log::LogLevel::xINFO, "RESERVED_WORD", message.str(), ast);
+        }
+    }
+
     /// Checks that an identifier, which is going to be declared, isn't a symbol of the scope.
     void check_not_declared(
             const std::shared_ptr<peg::Ast>& ast,
@@ -1065,6 +1073,10 @@ private:
         const std::string identifier = (token.front() == '_')
             ? resolve_identifier(ast->nodes[1], token, outer, true) // Escaped identifier
             : std::string(token.data(), token.size());
+        if (token.front() != '_')
+        {
+            check_reserved_word(ast->nodes[1], token);
+        }
         DynamicData expr(*type);
         expr = solve_expr(*type, ast->nodes[2], outer);
 
-- 
2.43.0


From 7fb0808cd2f828c4c28e1d46cd0f1a860307b4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:41 +0000
Subject: [PATCH 85/89] fix: redefinitions as something else are ignored, when
 redefinitions are

---
 include/xtypes/idl/parser.hpp | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 5f1e874..8b6fe20 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -937,7 +937,8 @@ private:
     }
 
     /// Checks that an identifier, which is going to be declared, isn't a symbol of the scope.
-    void check_not_declared(
+    /// \returns false if it is, and its redefinition must be ignored.
+    bool check_not_declared(
             const std::shared_ptr<peg::Ast>& ast,
             const std::string& name,
             const std::shared_ptr<Module>& scope) const
@@ -948,11 +949,12 @@ private:
             if (context_->ignore_redefinition)
             {
                 context_->log(log::LogLevel::xINFO, "REDEFINITION", msg, ast);
-                return;
+                return false;
             }
             context_->log(log::LogLevel::xERROR, "EXCEPTION", msg, ast);
             throw exception(msg, ast);
         }
+        return true;
     }
 
     /// Checks that a member isn't named as the type that has it.
@@ -1058,7 +1060,10 @@ private:
         for (auto& pair : identifier_list(ast->nodes[1], outer, context_->ignore_redefinition))
         {
             DynamicType::Ptr aliased = pair.second.empty() ? type : get_array_type(pair.second, type);
-            outer->create_alias(std::move(aliased), pair.first);
+            if (check_not_declared(ast, pair.first, outer))
+            {
+                outer->create_alias(std::move(aliased), pair.first);
+            }
         }
     }
 
@@ -1084,8 +1089,10 @@ private:
         message << "Found const " << type->name() << " " << identifier << " = " << expr.to_string();
         context_->log(log::LogLevel::xDEBUG, "DECLARATION", message.str(), ast);
 
-        check_not_declared(ast, identifier, outer);
-        outer->create_constant(identifier, expr);
+        if (check_not_declared(ast, identifier, outer))
+        {
+            outer->create_constant(identifier, expr);
+        }
     }
 
     /// Appends a code point (or a code unit given by an escape sequence) to the text of a literal.
@@ -1737,7 +1744,10 @@ private:
         using namespace peg::udl;
 
         const std::string name = resolve_identifier(ast->nodes[0], ast->nodes[0]->token, outer, true);
-        check_not_declared(ast, name, outer);
+        if (!check_not_declared(ast, name, outer))
+        {
+            return;
+        }
         EnumerationType<uint32_t> result(name); // TODO: Support other Enum types?, the grammar should be upgraded.
         context_->log(log::LogLevel::xDEBUG, "ENUM_DCL",
                 "Found enum \"" + name + "\"",
@@ -1822,9 +1832,9 @@ private:
                 case "IDENTIFIER"_:
                 {
                     name = resolve_identifier(ast, node->token, outer, true);
-                    if (!outer->has_structure(name))
+                    if (!outer->has_structure(name) && !check_not_declared(ast, name, outer))
                     {
-                        check_not_declared(ast, name, outer);
+                        return;
                     }
                     StructType result(name);
                     outer->structure(std::move(result));
@@ -1853,9 +1863,9 @@ private:
         if (name.empty() && ast->tag == "IDENTIFIER"_)
         {
             name = resolve_identifier(ast, ast->token, outer, true);
-            if (!outer->has_structure(name))
+            if (!outer->has_structure(name) && !check_not_declared(ast, name, outer))
             {
-                check_not_declared(ast, name, outer);
+                return;
             }
             StructType result(name);
             outer->structure(std::move(result));
@@ -1920,9 +1930,9 @@ private:
                 case "SCOPED_NAME"_:
                 {
                     type = type_spec(node, outer);
-                    if (!outer->has_union(name))
+                    if (!outer->has_union(name) && !check_not_declared(ast, name, outer))
                     {
-                        check_not_declared(ast, name, outer);
+                        return;
                     }
                     UnionType result(name, *type);
                     // Replace its forward declaration
-- 
2.43.0


From ebbb1363c9e54a1f2eaf75273d7b701bfaedb3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:11 +0000
Subject: [PATCH 86/89] fix: files that cannot be opened aren't parsed with
 success

---
 include/xtypes/idl/parser.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 8b6fe20..286a2a9 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -594,6 +594,14 @@ public:
             Context& context)
     {
         context.instance_ = shared_from_this();
+        std::ifstream file(idl_file);
+        if (file.fail())
+        {
+            context.start_results();
+            context.log(log::LogLevel::xERROR, "FILE", "Cannot open file: " + idl_file);
+            return false;
+        }
+
         if (context.preprocess)
         {
             std::string file_content = context.preprocess_file(idl_file);
@@ -601,7 +609,7 @@ public:
         }
 
         std::ostringstream os;
-        os << std::ifstream(idl_file).rdbuf();
+        os << file.rdbuf();
         return parse(os.str(), context);
     }
 
-- 
2.43.0


From cff088d87442c101bc68015cf65eff16b9c7bbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:32 +0000
Subject: [PATCH 87/89] fix: copy each element of a map once when it is copied
 from a compatible one

---
 include/xtypes/MapInstance.hpp | 61 +++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 19 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index b6be71d..e279463 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -85,16 +85,27 @@ public:
         : MapInstance(content, bounds)
     {
         // The converted keys must be placed again, because their hashes may have changed.
-        std::vector<uint8_t> pair(block_size_, 0);
+        const DynamicType& first = content_->first();
+        const DynamicType& second = content_->second();
+        const DynamicType& other_first = other.content_->first();
+        if (bounds == 0 && other.size_ > 0)
+        {
+            realloc(other.size_, bounds);
+        }
+
+        std::vector<uint8_t> key(first.memory_size(), 0);
         for (uint32_t i = 0; i < other.size_ && (bounds == 0 || size_ < bounds); i++)
         {
-            content_->copy_instance_from_type(pair.data(), other.get_element(i), *other.content_);
-            if (!contains_key(pair.data()))
+            const uint8_t* pair = other.get_element(i);
+            first.copy_instance_from_type(key.data(), pair, other_first);
+            if (!contains_key(key.data()))
             {
-                insert_pair(pair.data(), bounds);
+                uint8_t* value = insert_key(key.data(), bounds) + first.memory_size();
+                second.destroy_instance(value); // Already constructed
+                second.copy_instance_from_type(value, pair + other_first.memory_size(), other.content_->second());
             }
-            content_->destroy_instance(pair.data());
-            std::fill(pair.begin(), pair.end(), uint8_t(0));
+            first.destroy_instance(key.data());
+            std::fill(key.begin(), key.end(), uint8_t(0));
         }
     }
 
@@ -149,23 +160,11 @@ public:
 
         // The key could be placed in this map, so it must be kept while the memory is being reorganized.
         const DynamicType& first = content_->first();
-        const DynamicType& second = content_->second();
         std::vector<uint8_t> key(first.memory_size(), 0);
         first.copy_instance(key.data(), instance);
 
-        if (memory_ == nullptr || size_ == capacity_)
-        {
-            realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
-        }
-
-        // All the reserved instances are already constructed
-        uint8_t* place = create_place(key.data());
-        first.move_instance(place, key.data(), true);
+        uint8_t* place = insert_key(key.data(), bounds);
         first.destroy_instance(key.data());
-        second.destroy_instance(place + first.memory_size());
-        second.construct_instance(place + first.memory_size());
-
-        size_++;
 
         return place;
     }
@@ -249,6 +248,30 @@ private:
     uint8_t* memory_ = nullptr;
     uint32_t size_ = 0;
 
+    // Inserts a key that isn't placed in this map, moving it, with a new value.
+    uint8_t* insert_key(
+            uint8_t* key,
+            uint32_t bounds)
+    {
+        const DynamicType& first = content_->first();
+        const DynamicType& second = content_->second();
+
+        if (memory_ == nullptr || size_ == capacity_)
+        {
+            realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
+        }
+
+        // All the reserved instances are already constructed
+        uint8_t* place = create_place(key);
+        first.move_instance(place, key, true);
+        second.destroy_instance(place + first.memory_size());
+        second.construct_instance(place + first.memory_size());
+
+        size_++;
+
+        return place;
+    }
+
     void realloc(
             size_t desired_capacity,
             uint32_t bounds)
-- 
2.43.0


From 1daf672af741d7d9b6eee673284f4a3e4e95428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:08 +0000
Subject: [PATCH 88/89] fix: leave a map destructible when one of its values
 can't be converted

---
 include/xtypes/MapInstance.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index e279463..5407889 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -102,7 +102,18 @@ public:
             {
                 uint8_t* value = insert_key(key.data(), bounds) + first.memory_size();
                 second.destroy_instance(value); // Already constructed
-                second.copy_instance_from_type(value, pair + other_first.memory_size(), other.content_->second());
+                try
+                {
+                    second.copy_instance_from_type(
+                        value, pair + other_first.memory_size(), other.content_->second());
+                }
+                catch (...)
+                {
+                    // The value is going to be destroyed with the map
+                    std::memset(value, 0, second.memory_size());
+                    second.construct_instance(value);
+                    throw;
+                }
             }
             first.destroy_instance(key.data());
             std::fill(key.begin(), key.end(), uint8_t(0));
-- 
2.43.0


From 028786e84e037c168fe41e881ab434cee2578b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:09 +0000
Subject: [PATCH 89/89] fix: release the key of a map when its value can't be
 converted

---
 include/xtypes/MapInstance.hpp | 36 ++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 5407889..b9d7466 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -98,25 +98,27 @@ public:
         {
             const uint8_t* pair = other.get_element(i);
             first.copy_instance_from_type(key.data(), pair, other_first);
-            if (!contains_key(key.data()))
-            {
-                uint8_t* value = insert_key(key.data(), bounds) + first.memory_size();
-                second.destroy_instance(value); // Already constructed
-                try
-                {
-                    second.copy_instance_from_type(
-                        value, pair + other_first.memory_size(), other.content_->second());
-                }
-                catch (...)
-                {
-                    // The value is going to be destroyed with the map
-                    std::memset(value, 0, second.memory_size());
-                    second.construct_instance(value);
-                    throw;
-                }
-            }
+            uint8_t* place = contains_key(key.data()) ? nullptr : insert_key(key.data(), bounds);
             first.destroy_instance(key.data());
             std::fill(key.begin(), key.end(), uint8_t(0));
+            if (place == nullptr)
+            {
+                continue;
+            }
+
+            uint8_t* value = place + first.memory_size();
+            second.destroy_instance(value); // Already constructed
+            try
+            {
+                second.copy_instance_from_type(value, pair + other_first.memory_size(), other.content_->second());
+            }
+            catch (...)
+            {
+                // The value is going to be destroyed with the map
+                std::memset(value, 0, second.memory_size());
+                second.construct_instance(value);
+                throw;
+            }
         }
     }
 
-- 
2.43.0

