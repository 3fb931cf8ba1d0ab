From a3fcd5c051359080b20f72142b261d93d5e98c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:59 +0000
Subject: [PATCH 01/56] fix: std::hash of type identifiers did not compile when
 used

---
 include/rtti/tagged_id.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rtti/tagged_id.h b/include/rtti/tagged_id.h
index 69e6783..28b4ea3 100644
--- a/include/rtti/tagged_id.h
+++ b/include/rtti/tagged_id.h
@@ -61,7 +61,7 @@ struct hash<mpl::ID<Tag, Type, default_value>>
 
     result_type operator()(argument_type const &id) const
     {
-        return std::hash<Type>(id.value());
+        return std::hash<Type>{}(id.value());
     }
 };
 
-- 
2.43.0


From 5ce2217b7b43bbb1634c83df7519840848871494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:59 +0000
Subject: [PATCH 02/56] fix: member function converters did not compile
 (operator precedence)

---
 include/rtti/metatype.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index e4ff728..386cad5 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -723,7 +723,7 @@ struct RTTI_PRIVATE ConvertMethod: ConvertFunctionBase
         {
             auto &_this = static_cast<this_t const&>(self);
             auto from = static_cast<From const*>(in);
-            new (out) To(from->*_this.m_func());
+            new (out) To((from->*_this.m_func)());
             return true;
         }
         catch (...)
@@ -756,7 +756,7 @@ struct RTTI_PRIVATE ConvertMethodOk: ConvertFunctionBase
         auto &_this = static_cast<this_t const&>(self);
         auto from = static_cast<From const*>(in);
         auto result = false;
-        new (out) To(from->*_this.m_func(result));
+        new (out) To((from->*_this.m_func)(result));
         return result;
     }
 
-- 
2.43.0


From 3ba2eff5863408093d2da637550a68920462668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 03/56] fix: value produced by a converter that reports failure
 was leaked

---
 include/rtti/metatype.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 386cad5..2d67e6f 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -695,6 +695,8 @@ struct RTTI_PRIVATE ConvertFunctorOk: ConvertFunctionBase
         auto from = static_cast<From const*>(in);
         auto result = false;
         new (out) To(_this.m_func(*from, result));
+        if (!result)
+            static_cast<To*>(out)->~To();
         return result;
     }
 
@@ -757,6 +759,8 @@ struct RTTI_PRIVATE ConvertMethodOk: ConvertFunctionBase
         auto from = static_cast<From const*>(in);
         auto result = false;
         new (out) To((from->*_this.m_func)(result));
+        if (!result)
+            static_cast<To*>(out)->~To();
         return result;
     }
 
-- 
2.43.0


From 02ddcce0ed883d30bb5967996905aa8853218c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 04/56] fix: printing type flags read past the flag name table
 and lost CopyAssignable

---
 include/rtti/metatype.h | 2 +-
 src/metatype.cpp        | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 2d67e6f..6433461 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -69,7 +69,7 @@ enum class TypeFlags: std::uint32_t {
 };
 
 BITMASK_ENUM(TypeFlags)
-std::ostream& operator<<(std::ostream &stream, TypeFlags value);
+RTTI_API std::ostream& operator<<(std::ostream &stream, TypeFlags value);
 
 class RTTI_API MetaType final {
 public:
diff --git a/src/metatype.cpp b/src/metatype.cpp
index 5c44784..021b853 100644
--- a/src/metatype.cpp
+++ b/src/metatype.cpp
@@ -477,6 +477,7 @@ static char const *flag_names[] = {"None",
                                    "Polymorphic",
                                    "DefaultConstructible",
                                    "CopyConstructible",
+                                   "CopyAssignable",
                                    "MoveConstructible",
                                    "MoveAssignable",
                                    "Destructible",
@@ -485,7 +486,10 @@ static char const *flag_names[] = {"None",
 
 inline static std::string_view flag_name(TypeFlags value)
 {
-    return flag_names[static_cast<std::underlying_type_t<TypeFlags>>(value)];
+    std::size_t index = 0;
+    for (auto bits = static_cast<std::underlying_type_t<TypeFlags>>(value); bits; bits >>= 1)
+        ++index;
+    return flag_names[index];
 }
 
 inline static constexpr bool check_flag(TypeFlags value, TypeFlags bit)
@@ -543,6 +547,8 @@ std::ostream& operator<<(std::ostream &stream, TypeFlags value)
         it = flag_name(TypeFlags::DefaultConstructible);
     if (check_flag(value, TypeFlags::CopyConstructible))
         it = flag_name(TypeFlags::CopyConstructible);
+    if (check_flag(value, TypeFlags::CopyAssignable))
+        it = flag_name(TypeFlags::CopyAssignable);
     if (check_flag(value, TypeFlags::MoveConstructible))
         it = flag_name(TypeFlags::MoveConstructible);
     if (check_flag(value, TypeFlags::MoveAssignable))
-- 
2.43.0


From e2e6c5fc5533eb2a186e12f2a71e0ceb6c5a0a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 05/56] fix: methods without parameters could not be invoked
 without arguments

---
 include/rtti/detail/metamethod_impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rtti/detail/metamethod_impl.h b/include/rtti/detail/metamethod_impl.h
index 0aaf9f4..b8019e2 100644
--- a/include/rtti/detail/metamethod_impl.h
+++ b/include/rtti/detail/metamethod_impl.h
@@ -11,8 +11,10 @@ variant MetaMethod::invoke(Args&&... args) const
     auto interface = invoker();
     if (interface->isStatic())
         return interface->invoke_static(std::forward<Args>(args)...);
-    else
+    else if constexpr(sizeof...(Args) > 0)
         return interface->invoke_method(std::forward<Args>(args)...);
+    else
+        throw invoke_error{"Trying to invoke method " + qualifiedName() + " without instance"};
 }
 
 } // namespace rtti
-- 
2.43.0


From 70a4f0138979f64825d4e4ad4f1b320a4f759863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 06/56] fix: calls on an instance that is not a class were
 silently ignored

---
 include/rtti/metadefine.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index a9f7428..789e434 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -101,6 +101,12 @@ inline argument_array_t pack_arguments(std::size_t count,
     return result;
 }
 
+inline std::string incompatible_instance(MetaType type)
+{
+    using namespace std::literals;
+    return "Incompatible instance type: "s + type.typeName() + " -> ";
+}
+
 template<typename F>
 struct method_invoker<F, void_static_func>
 {
@@ -304,6 +310,8 @@ private:
         }
         else if (type.isClassPtr())
             (instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...);
+        else
+            throw bad_variant_cast{incompatible_instance(type) + type_name<class_ref_t>()};
 
         return variant::empty_variant;
     }
@@ -317,6 +325,8 @@ private:
             (instance.ref<class_t>().*func)(args[I]->value<argument_get_t<I>>()...);
         else if (type.isClassPtr())
             (instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...);
+        else
+            throw bad_variant_cast{incompatible_instance(type) + type_name<class_ref_t>()};
 
         return variant::empty_variant;
     }
@@ -418,7 +428,7 @@ private:
         else if (type.isClassPtr())
             return reference_get((instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...));
 
-        return variant::empty_variant;
+        throw bad_variant_cast{incompatible_instance(type) + type_name<class_ref_t>()};
     }
 
     template<std::size_t ...I>
@@ -431,7 +441,7 @@ private:
         else if (type.isClassPtr())
             return reference_get((instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...));
 
-        return variant::empty_variant;
+        throw bad_variant_cast{incompatible_instance(type) + type_name<class_ref_t>()};
     }
 };
 
@@ -698,7 +708,7 @@ struct property_invoker<P, member_pointer>
             return std::ref(instance.ref<C const>().*property);
         else if (type.isClassPtr())
             return std::ref(instance.to<C const *>()->*property);
-        return variant::empty_variant;
+        throw bad_variant_cast{incompatible_instance(type) + type_name<C const&>()};
     }
 
     static void set_field(P property, variant const &instance, argument const &arg)
@@ -714,6 +724,8 @@ struct property_invoker<P, member_pointer>
                                        type_name<class_ref_t>()};
             else if (type.isClassPtr())
                 instance.to<C*>()->*property = arg.value<T>();
+            else
+                throw bad_variant_cast{incompatible_instance(type) + type_name<class_ref_t>()};
         }
     }
 
@@ -728,6 +740,8 @@ struct property_invoker<P, member_pointer>
                 instance.ref<C>().*property = arg.value<T>();
             else if (type.isClassPtr())
                 instance.to<C*>()->*property = arg.value<T>();
+            else
+                throw bad_variant_cast{incompatible_instance(type) + type_name<class_ref_t>()};
         }
     }
 private:
-- 
2.43.0


From 2ecc9c9222677656e1d94f0ae9dc4d5d4728f201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 07/56] fix: static getter and setter properties were rejected
 at compile time

---
 include/rtti/metadefine.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index 789e434..5bafb6c 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -795,7 +795,7 @@ struct PropertyInvokerEx: IPropertyInvoker
     {}
 
     bool isStatic() const override
-    { return std::is_function_v<G>; }
+    { return std::is_function_v<std::remove_pointer_t<G>>; }
 
     MetaType_ID typeId() const override
     { return metaTypeId<T>(); }
@@ -820,7 +820,7 @@ struct PropertyInvokerEx: IPropertyInvoker
 
 private:
     static constexpr auto valid = conditional_v<
-     (std::is_function_v<G> && (std::is_void_v<S> || std::is_function_v<S>))
+     (std::is_function_v<std::remove_pointer_t<G>> && (std::is_void_v<S> || std::is_function_v<std::remove_pointer_t<S>>))
      ||
      (std::is_member_function_pointer_v<G> && (std::is_void_v<S> || std::is_member_function_pointer_v<S>)),
      std::true_type, std::false_type>;
-- 
2.43.0


From 3779dc379daf3aac5ec57e2a29f7d30d12d2fca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 08/56] fix: data race in the lazily cached qualified name of
 items

---
 src/metaitem.cpp         | 4 +---
 src/private/metaitem_p.h | 3 ++-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/metaitem.cpp b/src/metaitem.cpp
index 79f45ed..c9db09a 100644
--- a/src/metaitem.cpp
+++ b/src/metaitem.cpp
@@ -44,7 +44,7 @@ namespace internal {
 // MetaItemPrivate
 //--------------------------------------------------------------------------------------------------------------------------------
 
-inline std::string MetaItemPrivate::makeQualifiedName() const
+std::string MetaItemPrivate::makeQualifiedName() const
 {
     std::string result = m_owner ? m_owner->qualifiedName() : "";
     return std::move(result) + (m_owner ? "::" + m_name : "");
@@ -52,8 +52,6 @@ inline std::string MetaItemPrivate::makeQualifiedName() const
 
 inline std::string const& MetaItemPrivate::qualifiedName() const
 {
-    if (m_qualifiedName.empty())
-        m_qualifiedName = makeQualifiedName();
     return m_qualifiedName;
 }
 
diff --git a/src/private/metaitem_p.h b/src/private/metaitem_p.h
index 9de38ba..0335acd 100644
--- a/src/private/metaitem_p.h
+++ b/src/private/metaitem_p.h
@@ -99,6 +99,7 @@ public:
     MetaItemPrivate(std::string_view name, MetaContainer const &owner)
         : m_name(name)
         , m_owner(&owner)
+        , m_qualifiedName(makeQualifiedName())
     {}
 
     virtual ~MetaItemPrivate();
@@ -116,7 +117,7 @@ private:
     std::string const m_name;
     MetaContainer const *m_owner = nullptr;
     internal::NamedVariantList m_attributes;
-    mutable std::string m_qualifiedName = {};
+    std::string const m_qualifiedName = {};
 
     friend class rtti::MetaItem;
 };
-- 
2.43.0


From d16fe920c0bbee5e08ebce49d2aee590df1e398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 09/56] fix: deadlock when a visitor or a deferred definition
 adds items to the visited list

---
 src/private/metaclass_p.h     | 12 +++++++++---
 src/private/metacontainer_p.h | 12 +++++++++---
 src/private/metaitem_p.h      | 12 +++++++++---
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/private/metaclass_p.h b/src/private/metaclass_p.h
index d7f5c77..71f0a7d 100644
--- a/src/private/metaclass_p.h
+++ b/src/private/metaclass_p.h
@@ -97,10 +97,16 @@ namespace internal {
     template<typename F>
     inline void BaseClassList::for_each(F &&func) const
     {
-        std::shared_lock lock{m_lock};
-        for (auto const &item: m_items)
+        // Don't call foreign code under the lock
+        for (std::size_t i = 0;; ++i)
         {
-            if (!func(item))
+            auto item = item_t{};
+            {
+                std::shared_lock lock{m_lock};
+                if (i < m_items.size())
+                    item = m_items[i];
+            }
+            if (!item.second || !func(item))
                 break;
         }
     }
diff --git a/src/private/metacontainer_p.h b/src/private/metacontainer_p.h
index 63ee7a9..117e0ef 100644
--- a/src/private/metacontainer_p.h
+++ b/src/private/metacontainer_p.h
@@ -36,10 +36,16 @@ private:
 template<typename F>
 inline void MetaItemList::for_each(F &&func) const
 {
-    std::shared_lock lock{m_lock};
-    for(auto &item: m_items)
+    // Don't call foreign code under the lock
+    for (std::size_t i = 0;; ++i)
     {
-        if (!func(item.get()))
+        MetaItem *item = nullptr;
+        {
+            std::shared_lock lock{m_lock};
+            if (i < m_items.size())
+                item = m_items[i].get();
+        }
+        if (!item || !func(item))
             break;
     }
 }
diff --git a/src/private/metaitem_p.h b/src/private/metaitem_p.h
index 0335acd..af47bde 100644
--- a/src/private/metaitem_p.h
+++ b/src/private/metaitem_p.h
@@ -72,10 +72,16 @@ namespace internal {
     template<typename F>
     inline void NamedVariantList::for_each(F &&func) const
     {
-        std::shared_lock lock{m_lock};
-        for (auto const &item: m_items)
+        // Don't call foreign code under the lock
+        for (std::size_t i = 0;; ++i)
         {
-            if (!func(item->name, item->value))
+            named_variant const *item = nullptr;
+            {
+                std::shared_lock lock{m_lock};
+                if (i < m_items.size())
+                    item = m_items[i].get();
+            }
+            if (!item || !func(item->name, item->value))
                 break;
         }
     }
-- 
2.43.0


From 3e424cab84452a1497437e5ce29938651703a06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 10/56] fix: concurrent access to a container with deferred
 definition

The second thread saw the container before its definition had been completed
or invoked the callback already destroyed by the first one.
---
 src/metacontainer.cpp         | 19 ++++++++++++++++---
 src/private/metacontainer_p.h |  8 +++++++-
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/metacontainer.cpp b/src/metacontainer.cpp
index 2bacc45..728438c 100644
--- a/src/metacontainer.cpp
+++ b/src/metacontainer.cpp
@@ -70,6 +70,12 @@ std::size_t MetaItemList::size() const
     return m_items.size();
 }
 
+std::recursive_mutex& definition_lock()
+{
+    static std::recursive_mutex result;
+    return result;
+}
+
 } // namespace internal
 
 //--------------------------------------------------------------------------------------------------------------------------------
@@ -144,23 +150,30 @@ MetaContainer::MetaContainer(MetaContainerPrivate &value)
 void MetaContainer::setDeferredDefine(std::unique_ptr<IDefinitionCallbackHolder> callback)
 {
     auto d = d_func();
+    std::lock_guard lock{internal::definition_lock()};
     if (d->m_deferredDefine)
         throw definition_error{"Metacontainer " + qualifiedName() +
                                " already has deferred definition"};
     d->m_deferredDefine = std::move(callback);
+    d->m_deferredDefine_pending.store(true, std::memory_order_release);
 }
 
 void MetaContainer::checkDeferredDefine() const
 {
     auto d = d_func();
-    if (!d->m_deferredDefine)
+    if (!d->m_deferredDefine_pending.load(std::memory_order_acquire))
         return;
-    if (d->m_deferredDefine_lock.exchange(true, std::memory_order_acquire))
+
+    std::lock_guard lock{internal::definition_lock()};
+    // Already done by another thread or in progress by this one
+    if (!d->m_deferredDefine || d->m_deferredDefine_running)
         return;
 
+    d->m_deferredDefine_running = true;
     FINALLY{
         d->m_deferredDefine = nullptr;
-        d->m_deferredDefine_lock.store(false, std::memory_order_release);
+        d->m_deferredDefine_running = false;
+        d->m_deferredDefine_pending.store(false, std::memory_order_release);
     };
 
     d->m_deferredDefine->invoke(*const_cast<MetaContainer*>(this));
diff --git a/src/private/metacontainer_p.h b/src/private/metacontainer_p.h
index 117e0ef..434de7c 100644
--- a/src/private/metacontainer_p.h
+++ b/src/private/metacontainer_p.h
@@ -2,6 +2,7 @@
 #define METACONTAINER_P_H
 
 #include <atomic>
+#include <mutex>
 
 #include "metaitem_p.h"
 #include <rtti/metacontainer.h>
@@ -50,6 +51,10 @@ inline void MetaItemList::for_each(F &&func) const
     }
 }
 
+// Serializes deferred definitions. Single lock for all containers because
+// definition of one container is allowed to trigger definition of another one
+RTTI_PRIVATE std::recursive_mutex& definition_lock();
+
 } // namespace internal
 
 class RTTI_PRIVATE MetaContainerPrivate: public MetaItemPrivate
@@ -79,7 +84,8 @@ private:
          &m_methods, &m_enums, &m_constructors}
     };
 
-    mutable std::atomic_bool m_deferredDefine_lock = false;
+    mutable std::atomic_bool m_deferredDefine_pending = false;
+    mutable bool m_deferredDefine_running = false;
     mutable std::unique_ptr<IDefinitionCallbackHolder> m_deferredDefine;
 
     friend class rtti::MetaContainer;
-- 
2.43.0


From 47f735ccf17cb046b1c93b747ffa8a99f5ed26fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:17 +0000
Subject: [PATCH 11/56] fix: concurrent registration of the same type produced
 two metaclasses

---
 src/metaclass.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/metaclass.cpp b/src/metaclass.cpp
index 29a4572..8ba9d40 100644
--- a/src/metaclass.cpp
+++ b/src/metaclass.cpp
@@ -18,6 +18,7 @@ MetaClass* MetaClass::create(std::string_view name, MetaContainer &owner, MetaTy
 {
     using namespace std::literals;
 
+    std::lock_guard lock{internal::definition_lock()};
     auto result = const_cast<MetaClass *>(owner.getClass(name));
     if (!result)
     {
@@ -30,10 +31,11 @@ MetaClass* MetaClass::create(std::string_view name, MetaContainer &owner, MetaTy
                                       + metaClass.load()->qualifiedName()};
 
         result = new MetaClass(name, owner, typeId);
-        if (INVOKE_PROTECTED(owner, addItem, result))
-            metaClass.store(result);
-        else
+        // Class can be found by name only when its type is already linked
+        metaClass.store(result);
+        if (!INVOKE_PROTECTED(owner, addItem, result))
         {
+            metaClass.store(nullptr);
             delete result;
             result = const_cast<MetaClass *>(owner.getClass(name));
         }
-- 
2.43.0


From 60c43021338bc8b446cd2a59efeefcd8b252bd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:18 +0000
Subject: [PATCH 12/56] fix: registering a class under the name of another
 class redefined that class

---
 src/metaclass.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metaclass.cpp b/src/metaclass.cpp
index 8ba9d40..343db84 100644
--- a/src/metaclass.cpp
+++ b/src/metaclass.cpp
@@ -40,6 +40,9 @@ MetaClass* MetaClass::create(std::string_view name, MetaContainer &owner, MetaTy
             result = const_cast<MetaClass *>(owner.getClass(name));
         }
     }
+    else if (result->metaTypeId() != typeId)
+        throw duplicate_metaclass{"Class "s + result->qualifiedName() + " already registered for type: "
+                                  + MetaType{result->metaTypeId()}.typeName()};
     return result;
 }
 
-- 
2.43.0


From eaa3db14dec8a9c2881f99797403f9271f1d60ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:28 +0000
Subject: [PATCH 13/56] fix: own method or property was dropped when a base
 class declared before had the same one

---
 src/metamethod.cpp   | 5 +++--
 src/metaproperty.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/metamethod.cpp b/src/metamethod.cpp
index ffa0762..75e9efb 100644
--- a/src/metamethod.cpp
+++ b/src/metamethod.cpp
@@ -26,14 +26,15 @@ MetaMethod* MetaMethod::create(std::string_view name, MetaContainer &owner,
         return nullptr;
 
     auto signature = invoker->signature(name);
-    auto result = const_cast<MetaMethod*>(owner.getMethod(signature));
+    // Look only for own method: method of the base class can be overridden
+    auto result = static_cast<MetaMethod*>(const_cast<MetaItem*>(INVOKE_PROTECTED(owner, item, mcatMethod, signature)));
     if (!result)
     {
         result = new MetaMethod{signature, owner, std::move(invoker)};
         if (!INVOKE_PROTECTED(owner, addItem, result))
         {
             delete result;
-            result = const_cast<MetaMethod*>(owner.getMethod(signature));
+            result = static_cast<MetaMethod*>(const_cast<MetaItem*>(INVOKE_PROTECTED(owner, item, mcatMethod, signature)));
         }
     }
     return result;
diff --git a/src/metaproperty.cpp b/src/metaproperty.cpp
index 1da43c8..ff94c2e 100644
--- a/src/metaproperty.cpp
+++ b/src/metaproperty.cpp
@@ -18,14 +18,15 @@ MetaProperty* MetaProperty::create(std::string_view name, MetaContainer &owner,
     if (name.empty() || !invoker)
         return nullptr;
 
-    auto result = const_cast<MetaProperty*>(owner.getProperty(name));
+    // Look only for own property: property of the base class can be overridden
+    auto result = static_cast<MetaProperty*>(const_cast<MetaItem*>(INVOKE_PROTECTED(owner, item, mcatProperty, name)));
     if (!result)
     {
         result = new MetaProperty{name, owner, std::move(invoker)};
         if (!INVOKE_PROTECTED(owner, addItem, result))
         {
             delete result;
-            result = const_cast<MetaProperty*>(owner.getProperty(name));
+            result = static_cast<MetaProperty*>(const_cast<MetaItem*>(INVOKE_PROTECTED(owner, item, mcatProperty, name)));
         }
     }
     return result;
-- 
2.43.0


From 15fd0aeb04f5d099fab511490b46d97e082763e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 14/56] fix: over-aligned values were stored at misaligned
 addresses

---
 include/rtti/detail/variant_impl.h |  3 ++-
 include/rtti/metatype.h            | 18 ++++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 2ba1779..023e91e 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -5,7 +5,8 @@ namespace rtti {
 
 namespace internal {
 
-template<typename T, bool Small = sizeof(T) <= STORAGE_SIZE>
+template<typename T, bool Small = (sizeof(T) <= STORAGE_SIZE)
+                                  && (alignof(T) <= STORAGE_ALIGN)>
 using is_inplace = std::integral_constant<bool, Small>;
 
 template<typename T>
diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 6433461..04e94ec 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -225,12 +225,17 @@ struct type_function_table_impl
 {
     static void* allocate()
     {
-        return ::operator new(sizeof(T));
+        if constexpr(alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+            return ::operator new(sizeof(T), std::align_val_t{alignof(T)});
+        else
+            return ::operator new(sizeof(T));
     }
 
     static void deallocate(void *ptr)
     {
-        if (ptr)
+        if constexpr(alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+            ::operator delete(ptr, std::align_val_t{alignof(T)});
+        else
             ::operator delete(ptr);
     }
 
@@ -316,12 +321,17 @@ struct type_function_table_impl<T[N]>
 
     static void* allocate()
     {
-        return ::operator new(Length*sizeof(Base));
+        if constexpr(alignof(Base) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+            return ::operator new(Length*sizeof(Base), std::align_val_t{alignof(Base)});
+        else
+            return ::operator new(Length*sizeof(Base));
     }
 
     static void deallocate(void *ptr)
     {
-        if (ptr)
+        if constexpr(alignof(Base) > __STDCPP_DEFAULT_NEW_ALIGNMENT__)
+            ::operator delete(ptr, std::align_val_t{alignof(Base)});
+        else
             ::operator delete(ptr);
     }
 
-- 
2.43.0


From 05cdc024ee9365971494336ec96159fb31cab617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 15/56] fix: program was terminated when relocation of a small
 value threw

---
 include/rtti/detail/variant_impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 023e91e..5a56a70 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -5,8 +5,10 @@ namespace rtti {
 
 namespace internal {
 
+// Values are relocated inside of noexcept functions so that should not throw
 template<typename T, bool Small = (sizeof(T) <= STORAGE_SIZE)
-                                  && (alignof(T) <= STORAGE_ALIGN)>
+                                  && (alignof(T) <= STORAGE_ALIGN)
+                                  && std::is_nothrow_move_constructible_v<T>>
 using is_inplace = std::integral_constant<bool, Small>;
 
 template<typename T>
-- 
2.43.0


From 981752b62dcb5a0aec2f283d5f925ecaa5e69ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 16/56] fix: variant leaked memory or terminated when copying
 of a value threw

---
 include/rtti/detail/variant_impl.h | 40 ++++++++++++++++--------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 5a56a70..c1b9d68 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -214,24 +214,26 @@ struct variant_function_table_impl<T, false, false>
     }
 
     static void copy_construct(void const *value, variant_type_storage &storage)
-        noexcept(std::is_nothrow_copy_constructible_v<Decay>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(value, storage.ptr);
+        auto *ptr = type_manager_t<Decay>::allocate();
+        FINALLY_EX(guard) { type_manager_t<Decay>::deallocate(ptr); };
+        type_manager_t<Decay>::copy_construct(value, ptr);
+        guard.dismiss();
+        storage.ptr = ptr;
     }
 
     static void move_construct(void *value, variant_type_storage &storage)
-        noexcept(std::is_nothrow_move_constructible_v<Decay>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::move_or_copy(value, storage.ptr);
+        auto *ptr = type_manager_t<Decay>::allocate();
+        FINALLY_EX(guard) { type_manager_t<Decay>::deallocate(ptr); };
+        type_manager_t<Decay>::move_or_copy(value, ptr);
+        guard.dismiss();
+        storage.ptr = ptr;
     }
 
     static void copy(variant_type_storage const &src, variant_type_storage &dst)
-        noexcept(std::is_nothrow_copy_constructible_v<Decay>)
     {
-        dst.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(src.ptr, dst.ptr);
+        copy_construct(src.ptr, dst);
     }
 
     static void move(variant_type_storage &src, variant_type_storage &dst) noexcept
@@ -286,24 +288,26 @@ struct variant_function_table_impl<T[N], false, false>
     }
 
     static void copy_construct(void const *value, variant_type_storage &storage)
-        noexcept(std::is_nothrow_copy_constructible_v<Base>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(value, storage.ptr);
+        auto *ptr = type_manager_t<Decay>::allocate();
+        FINALLY_EX(guard) { type_manager_t<Decay>::deallocate(ptr); };
+        type_manager_t<Decay>::copy_construct(value, ptr);
+        guard.dismiss();
+        storage.ptr = ptr;
     }
 
     static void move_construct(void *value, variant_type_storage &storage)
-        noexcept(std::is_nothrow_move_constructible_v<Base>)
     {
-        storage.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::move_or_copy(value, storage.ptr);
+        auto *ptr = type_manager_t<Decay>::allocate();
+        FINALLY_EX(guard) { type_manager_t<Decay>::deallocate(ptr); };
+        type_manager_t<Decay>::move_or_copy(value, ptr);
+        guard.dismiss();
+        storage.ptr = ptr;
     }
 
     static void copy(variant_type_storage const &src, variant_type_storage &dst)
-        noexcept(std::is_nothrow_copy_constructible_v<Base>)
     {
-        dst.ptr = type_manager_t<Decay>::allocate();
-        type_manager_t<Decay>::copy_construct(src.ptr, dst.ptr);
+        copy_construct(src.ptr, dst);
     }
 
     static void move(variant_type_storage &src, variant_type_storage &dst) noexcept
-- 
2.43.0


From e33e1dd746100f76ada4c536409cce3a93c52238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 17/56] fix: arrays were copied by assignment to not
 constructed elements

---
 include/rtti/metatype.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 04e94ec..9f8442f 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -4,6 +4,8 @@
 #include <rtti/defines.h>
 #include <rtti/export.h>
 
+#include <memory>
+
 #include <rtti/misc_traits.h>
 #include <rtti/metaerror.h>
 
@@ -363,7 +365,7 @@ struct type_function_table_impl<T[N]>
             if (source && where)
             {
                 auto *it = static_cast<Base const*>(source);
-                std::copy(it, it + Length, static_cast<Base*>(where));
+                std::uninitialized_copy(it, it + Length, static_cast<Base*>(where));
             }
         }
         else throw runtime_error("Type T = "s + type_name<Base>() + "isn't CopyConstructible");
@@ -378,7 +380,7 @@ struct type_function_table_impl<T[N]>
             if (source && where)
             {
                 auto *it = static_cast<Base*>(source);
-                std::move(it, it + Length, static_cast<Base*>(where));
+                std::uninitialized_move(it, it + Length, static_cast<Base*>(where));
             }
         }
         else throw runtime_error("Type T = "s + type_name<Base>() + "isn't MoveConstructible");
-- 
2.43.0


From 344549502643c22dfd3b1aa847dae2c223648e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 18/56] fix: arrays of not comparable elements did not compile,
 throwing comparison of elements terminated

---
 include/rtti/detail/variant_impl.h | 2 +-
 include/rtti/metatype.h            | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index c1b9d68..f64bb18 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -322,7 +322,7 @@ struct variant_function_table_impl<T[N], false, false>
     }
 
     static bool compare_eq(variant_type_storage const &lhs, void const *rhs)
-        noexcept(has_nt_eq_v<Decay, Decay>)
+        noexcept(has_nt_eq_v<Base, Base>)
     {
         return type_manager_t<Decay>::compare_eq(lhs.ptr, rhs);
     }
diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 9f8442f..3ce9488 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -408,10 +408,10 @@ struct type_function_table_impl<T[N]>
     }
 
     static bool compare_eq(void const *lhs, void const *rhs)
-        noexcept(has_nt_eq_v<T, T>)
+        noexcept(has_nt_eq_v<Base, Base>)
     {
         using namespace std::literals;
-        if constexpr(has_eq_v<T, T>)
+        if constexpr(has_eq_v<Base, Base>)
         {
             if (lhs == rhs)
                 return true;
-- 
2.43.0


From 265739fca700f035d0e43b4aed318de9cdfadb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 19/56] fix: equality of variants was not symmetric, arrays
 were compared with pointers

---
 src/variant.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/variant.cpp b/src/variant.cpp
index 14f474c..aa0e1fc 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -98,9 +98,12 @@ bool variant::operator==(variant const &value) const
     auto mt_left  = MetaType{this->internalTypeId(type_attribute::LREF_CONST)};
     auto mt_right = MetaType{value.internalTypeId(type_attribute::LREF_CONST)};
 
-    if (MetaType::compatible(mt_right, mt_left))
+    if (mt_right.decayId() == mt_left.decayId())
     {
-        if (mt_right.decayId() == mt_left.decayId())
+        // Array decays to pointer, but it holds elements
+        auto sameLayout = (mt_right.isArray() == mt_left.isArray())
+                          && (mt_right.typeSize() == mt_left.typeSize());
+        if (sameLayout)
         {
             auto ptr = value.raw_data_ptr();
             if (mt_right.isArray())
-- 
2.43.0


From 6f9ba78c4042521a5d4da70d2566dbaa0f492e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 20/56] fix: comparison with conversion to or from array
 overflowed the buffer

---
 include/rtti/detail/variant_impl.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index f64bb18..22f8a41 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -471,6 +471,8 @@ bool variant::eq(T const &value) const
     auto mt_self = MetaType{internalTypeId(type_attribute::NONE)};
     auto mt_value = MetaType{metaTypeId<T>()};
 
+    // Converters produce decayed values, array can't be a result of conversion
+    if constexpr(!std::is_array_v<T>)
     if (MetaType::hasConverter(mt_self, mt_value))
     {
         std::aligned_storage_t<sizeof(T), alignof(T)> buffer;
@@ -481,7 +483,7 @@ bool variant::eq(T const &value) const
         }
     }
 
-    if (MetaType::hasConverter(mt_value, mt_self))
+    if (!mt_self.isArray() && MetaType::hasConverter(mt_value, mt_self))
     {
         auto *buffer = mt_self.allocate();
         FINALLY { mt_self.deallocate(buffer); };
@@ -495,10 +497,7 @@ bool variant::eq(T const &value) const
         if (MetaType::convert(address, mt_value, buffer, mt_self))
         {
             FINALLY { mt_self.destroy(buffer); };
-            auto ptr = raw_data_ptr();
-            if (mt_self.isArray())
-                ptr = *reinterpret_cast<void const *const *>(ptr);
-            return mt_self.compare_eq(ptr, buffer);
+            return mt_self.compare_eq(raw_data_ptr(), buffer);
         }
     }
 
-- 
2.43.0


From 9d4ef507c7fdfc83b96e55c2a26408fa380a10a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 21/56] fix: construction of an object by its metatype leaked
 memory when constructor threw

---
 include/rtti/metatype.h | 5 +----
 src/metatype.cpp        | 3 +++
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 3ce9488..2b128f2 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -347,10 +347,7 @@ struct type_function_table_impl<T[N]>
                 if (where)
                 {
                     auto *begin = static_cast<Base*>(where);
-                    auto *end = static_cast<Base*>(where) + Length;
-
-                    for (; begin != end; ++begin)
-                        new (begin) Base();
+                    std::uninitialized_value_construct(begin, begin + Length);
                 }
         }
         else throw runtime_error("Type T = "s + type_name<Base>() + "isn't DefaultConstructible");
diff --git a/src/metatype.cpp b/src/metatype.cpp
index 021b853..f2b16d8 100644
--- a/src/metatype.cpp
+++ b/src/metatype.cpp
@@ -2,6 +2,7 @@
 
 #include <rtti/metatype.h>
 #include <rtti/signature.h>
+#include <rtti/finally.h>
 
 #include <ostream>
 #include <shared_mutex>
@@ -292,6 +293,7 @@ bool MetaType::compare_eq(void const *lhs, void const *rhs) const
 void* MetaType::construct(void *copy, bool movable) const
 {
     auto result = allocate();
+    FINALLY_EX(guard) { deallocate(result); };
     if (!copy)
         default_construct(result);
     else if (!movable)
@@ -299,6 +301,7 @@ void* MetaType::construct(void *copy, bool movable) const
     else
         move_or_copy(copy, result);
 
+    guard.dismiss();
     return result;
 }
 
-- 
2.43.0


From 8635d7484bdaa25c39612aea0a01d6d76d8cf28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 22/56] fix: null pointer to a class inside of a variant was
 dereferenced

---
 include/rtti/detail/variant_impl.h | 2 ++
 include/rtti/variant.h             | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 22f8a41..46bd5f7 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -370,6 +370,8 @@ struct class_info_get
                 if constexpr(is_registered::value)
                 {
                     auto ptr = reinterpret_cast<C const * const *>(instance);
+                    if (!*ptr)
+                        return ClassInfo{metaTypeId<C>(), nullptr};
                     return (*ptr)->classInfo();
                 }
                 else
diff --git a/include/rtti/variant.h b/include/rtti/variant.h
index 1231aed..a7aeaa0 100644
--- a/include/rtti/variant.h
+++ b/include/rtti/variant.h
@@ -572,7 +572,9 @@ private:
         {
             if (from.isClassPtr())
             {
-                if (auto ptr = cast_imp(self))
+                auto ptr = cast_imp(self);
+                // null pointer can be casted to any base class
+                if (ptr || (!self.classInfo().instance && metafunc_is<T>::invoke(self, from.typeId())))
                 {
                     to.copy_construct(&ptr, buffer);
                     return true;
-- 
2.43.0


From e7c61613db5e1d63d297936a5ab6cc0d78834088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 23/56] fix: hash of equal variants differed

---
 include/rtti/detail/variant_impl.h | 36 ++++++++++++++++++++++++++----
 include/rtti/variant.h             |  7 +++++-
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 46bd5f7..4b7742d 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -389,6 +389,31 @@ private:
     using C = std::remove_pointer_t<Decay>;
 };
 
+// Equal values must have equal hashes, so that bytes of an object can't be used
+template<typename T, typename = std::void_t<>>
+struct has_std_hash: std::false_type
+{};
+
+template<typename T>
+struct has_std_hash<T, std::void_t<decltype(std::hash<T>{}(std::declval<T const &>()))>>: std::true_type
+{};
+
+template<typename T>
+std::size_t hash_value(void const *value)
+{
+    std::size_t result = 0;
+    if constexpr(std::is_array_v<T>)
+    {
+        using Base = std::remove_all_extents_t<T>;
+        auto *it = static_cast<Base const *>(value);
+        for (auto *end = it + array_length_v<T>; it != end; ++it)
+            result = result * 31 + hash_value<Base>(it);
+    }
+    else if constexpr(has_std_hash<T>::value)
+        result = std::hash<T>{}(*static_cast<T const *>(value));
+    return result;
+}
+
 template<typename T>
 inline variant_function_table const* variant_function_table_for() noexcept
 {
@@ -401,7 +426,8 @@ inline variant_function_table const* variant_function_table_for() noexcept
         &variant_function_table_impl<T>::move,
         &variant_function_table_impl<T>::destroy,
         &variant_function_table_impl<T>::compare_eq,
-        &class_info_get<T>::info
+        &class_info_get<T>::info,
+        &hash_value<remove_all_cv_t<unwrap_reference_t<std::remove_cv_t<T>>>>
     };
     return &result;
 }
@@ -418,7 +444,8 @@ inline variant_function_table const* variant_function_table_for<void>() noexcept
         [] (variant_type_storage&, variant_type_storage&) noexcept {},
         [] (variant_type_storage&) noexcept {},
         [] (variant_type_storage const&, void const*) noexcept -> bool { return false; },
-        [] (variant_type_storage const&) noexcept { return ClassInfo(); }
+        [] (variant_type_storage const&) noexcept { return ClassInfo(); },
+        [] (void const*) noexcept -> std::size_t { return 0; }
     };
     return &result;
 }
@@ -435,7 +462,8 @@ inline variant_function_table const* variant_function_table_for<variant>() noexc
         [] (variant_type_storage&, variant_type_storage&) noexcept {},
         [] (variant_type_storage&) noexcept {},
         [] (variant_type_storage const&, void const*) noexcept -> bool { return false; },
-        [] (variant_type_storage const&) noexcept { return ClassInfo(); }
+        [] (variant_type_storage const&) noexcept { return ClassInfo(); },
+        [] (void const*) noexcept -> std::size_t { return 0; }
     };
     return &result;
 }
@@ -583,7 +611,7 @@ struct hash<rtti::variant>: public std::__hash_base<std::size_t, rtti::variant>
         auto ptr = value.raw_data_ptr({});
         if (type.isArray())
             ptr = *reinterpret_cast<void const * const *>(ptr);
-        return _Hash_impl::hash(ptr, type.typeSize());
+        return value.hash(ptr, {});
     }
 };
 
diff --git a/include/rtti/variant.h b/include/rtti/variant.h
index a7aeaa0..6137f22 100644
--- a/include/rtti/variant.h
+++ b/include/rtti/variant.h
@@ -44,6 +44,7 @@ namespace internal {
         using destroy_t        = void (*)(variant_type_storage &);
         using compare_eq_t     = bool (*)(variant_type_storage const &, void const *);
         using info_t           = ClassInfo (*)(variant_type_storage const &);
+        using hash_t           = std::size_t (*)(void const *);
 
         type_t const f_type                     = nullptr;
         access_t const f_access                 = nullptr;
@@ -54,10 +55,11 @@ namespace internal {
         destroy_t const f_destroy               = nullptr;
         compare_eq_t const f_compare_eq         = nullptr;
         info_t const f_info                     = nullptr;
+        hash_t const f_hash                     = nullptr;
 
         variant_function_table(type_t type, access_t access, copy_construct_t copy_construct,
                                move_construct_t move_construct, copy_t copy, move_t move,
-                               destroy_t destroy, compare_eq_t compare_eq, info_t info) noexcept
+                               destroy_t destroy, compare_eq_t compare_eq, info_t info, hash_t hash) noexcept
             : f_type{type}
             , f_access{access}
             , f_copy_construct{copy_construct}
@@ -67,6 +69,7 @@ namespace internal {
             , f_destroy{destroy}
             , f_compare_eq{compare_eq}
             , f_info(info)
+            , f_hash{hash}
         {}
     };
 
@@ -618,6 +621,8 @@ private:
 public:
     void const* raw_data_ptr(RawPtrAccessKey) const noexcept
     { return raw_data_ptr(); }
+    std::size_t hash(void const *ptr, RawPtrAccessKey) const
+    { return manager->f_hash(ptr); }
     void swap(variant &other, SwapAccessKey) noexcept
     { swap(other); }
 };
-- 
2.43.0


From a4cdce1f92a221b03c8981608ac3b7150fd70af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 24/56] fix: converter registered anew kept calling the
 function registered first

---
 include/rtti/metatype.h | 53 +++++++++++++++++++----------------------
 src/metatype.cpp        | 18 +++++++-------
 2 files changed, 34 insertions(+), 37 deletions(-)

diff --git a/include/rtti/metatype.h b/include/rtti/metatype.h
index 2b128f2..7412b93 100644
--- a/include/rtti/metatype.h
+++ b/include/rtti/metatype.h
@@ -157,7 +157,7 @@ private:
     static bool registerConverter_imp(To(From::*func)(bool&) const);
 
     static bool registerConverter(MetaType_ID fromTypeId, MetaType_ID toTypeId,
-                                  internal::ConvertFunctionBase const &converter);
+                                  std::shared_ptr<internal::ConvertFunctionBase const> converter);
     static bool convert(void const *from, MetaType fromType, void *to, MetaType toType);
     static bool convert(void const *from, MetaType_ID fromTypeId, void *to, MetaType_ID toTypeId);
 
@@ -658,11 +658,6 @@ struct RTTI_PRIVATE ConvertFunctor: ConvertFunctionBase
     explicit ConvertFunctor(F &&func)
         : ConvertFunctionBase{convert}, m_func(std::move(func))
     {}
-    ~ConvertFunctor()
-    {
-        MetaType::unregisterConverter<From, To>();
-    }
-
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
     {
         try
@@ -693,11 +688,6 @@ struct RTTI_PRIVATE ConvertFunctorOk: ConvertFunctionBase
     explicit ConvertFunctorOk(F &&func)
         : ConvertFunctionBase{convert}, m_func(std::move(func))
     {}
-    ~ConvertFunctorOk()
-    {
-        MetaType::unregisterConverter<From, To>();
-    }
-
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
     {
         auto &_this = static_cast<this_t const&>(self);
@@ -723,11 +713,6 @@ struct RTTI_PRIVATE ConvertMethod: ConvertFunctionBase
         : ConvertFunctionBase{convert}, m_func(func)
     {}
 
-    ~ConvertMethod()
-    {
-        MetaType::unregisterConverter<From, To>();
-    }
-
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
     {
         try
@@ -757,11 +742,6 @@ struct RTTI_PRIVATE ConvertMethodOk: ConvertFunctionBase
         : ConvertFunctionBase{convert}, m_func(func)
     {}
 
-    ~ConvertMethodOk()
-    {
-        MetaType::unregisterConverter<From, To>();
-    }
-
     static bool convert(ConvertFunctionBase const &self, void const *in, void *out)
     {
         auto &_this = static_cast<this_t const&>(self);
@@ -777,6 +757,16 @@ private:
     func_t const m_func;
 };
 
+// Unregisters converter when module is unloaded
+template<typename From, typename To>
+struct RTTI_PRIVATE ConvertGuard
+{
+    ~ConvertGuard()
+    {
+        MetaType::unregisterConverter<From, To>();
+    }
+};
+
 } // namespace internal
 
 
@@ -794,15 +784,18 @@ inline bool MetaType::registerConverter_imp(Func &&func)
     using Fu = full_decay_t<Func>;
     auto constexpr is_functorOk = std::is_invocable_r_v<To, Func, From, bool&>;
 
+    static internal::ConvertGuard<From, To> const guard;
     if constexpr(is_functorOk)
     {
-        static internal::ConvertFunctorOk<From, To, Fu> converter{std::forward<Func>(func)};
-        return registerConverter(metaTypeId<From>(), metaTypeId<To>(), converter);
+        using converter_t = internal::ConvertFunctorOk<From, To, Fu>;
+        return registerConverter(metaTypeId<From>(), metaTypeId<To>(),
+                                 std::make_shared<converter_t>(std::forward<Func>(func)));
     }
     else
     {
-        static internal::ConvertFunctor<From, To, Fu> converter{std::forward<Func>(func)};
-        return registerConverter(metaTypeId<From>(), metaTypeId<To>(), converter);
+        using converter_t = internal::ConvertFunctor<From, To, Fu>;
+        return registerConverter(metaTypeId<From>(), metaTypeId<To>(),
+                                 std::make_shared<converter_t>(std::forward<Func>(func)));
     }
 }
 
@@ -832,8 +825,9 @@ inline bool MetaType::registerConverter()
 template<typename From, typename To>
 inline bool MetaType::registerConverter_imp(To(From::*func)() const)
 {
-    static internal::ConvertMethod<From, To> converter{func};
-    return registerConverter(metaTypeId<From>(), metaTypeId<To>(), converter);
+    static internal::ConvertGuard<From, To> const guard;
+    return registerConverter(metaTypeId<From>(), metaTypeId<To>(),
+                             std::make_shared<internal::ConvertMethod<From, To>>(func));
 }
 
 template<typename From, typename To>
@@ -849,8 +843,9 @@ inline bool MetaType::registerConverter(To(From::*func)() const)
 template<typename From, typename To>
 inline bool MetaType::registerConverter_imp(To(From::*func)(bool&) const)
 {
-    static internal::ConvertMethodOk<From, To> converter{func};
-    return registerConverter(metaTypeId<From>(), metaTypeId<To>(), converter);
+    static internal::ConvertGuard<From, To> const guard;
+    return registerConverter(metaTypeId<From>(), metaTypeId<To>(),
+                             std::make_shared<internal::ConvertMethodOk<From, To>>(func));
 }
 
 template<typename From, typename To>
diff --git a/src/metatype.cpp b/src/metatype.cpp
index f2b16d8..582d84a 100644
--- a/src/metatype.cpp
+++ b/src/metatype.cpp
@@ -339,7 +339,7 @@ namespace {
             return (m_items.find(key) != std::end(m_items));
         }
 
-        bool add(key_t key, F const *func)
+        bool add(key_t key, std::shared_ptr<F const> func)
         {
             if (!func)
                 return false;
@@ -348,11 +348,11 @@ namespace {
             if (auto search = m_items.find(key); search != std::end(m_items))
                 return false;
 
-            m_items.emplace(key, func);
+            m_items.emplace(key, std::move(func));
             return true;
         }
 
-        F const* get(key_t const &key) const
+        std::shared_ptr<F const> get(key_t const &key) const
         {
             std::shared_lock lock{m_lock};
             if (auto search = m_items.find(key); search != std::end(m_items))
@@ -362,8 +362,10 @@ namespace {
 
         void remove(key_t const &key)
         {
-            std::unique_lock lock{m_lock};
-            m_items.erase(key);
+            auto item = [this, &key] {
+                std::unique_lock lock{m_lock};
+                return m_items.extract(key);
+            }(); // converter is destroyed outside of the lock
         }
     private:
         struct hash_key
@@ -378,7 +380,7 @@ namespace {
         };
 
         mutable std::shared_mutex m_lock;
-        std::unordered_map<key_t, F const*, hash_key> m_items;
+        std::unordered_map<key_t, std::shared_ptr<F const>, hash_key> m_items;
 
         static bool Destroyed;
 
@@ -416,14 +418,14 @@ bool MetaType::hasConverter(MetaType_ID fromTypeId, MetaType_ID toTypeId) noexce
 }
 
 bool MetaType::registerConverter(MetaType_ID fromTypeId, MetaType_ID toTypeId,
-                                 internal::ConvertFunctionBase const &converter)
+                                 std::shared_ptr<internal::ConvertFunctionBase const> converter)
 {
     auto fromType = MetaType{fromTypeId};
     auto toType   = MetaType{toTypeId};
 
     if (fromType.valid() && toType.valid())
         if (auto list = customConverters())
-            return list->add({fromType.m_typeInfo->decay, toType.m_typeInfo->decay}, &converter);
+            return list->add({fromType.m_typeInfo->decay, toType.m_typeInfo->decay}, std::move(converter));
     return false;
 }
 
-- 
2.43.0


From 6ab754c95ce6840c3b8409e7ac09076c4693af28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:21 +0000
Subject: [PATCH 25/56] fix: swapping a variant with itself constructed its
 value over itself

---
 src/variant.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/variant.cpp b/src/variant.cpp
index aa0e1fc..681f7c3 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -43,6 +43,9 @@ void variant::swap(variant &other) noexcept
 {
     using std::swap;
 
+    if (this == &other)
+        return;
+
     auto thisEmpty  = this->empty();
     auto otherEmpty = other.empty();
     if (thisEmpty && otherEmpty)
-- 
2.43.0


From cd9378c4b8c6777e2e1caa8ea481d1cb5e0b3649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:04 +0000
Subject: [PATCH 26/56] fix: comparing referenced arrays whose elements can't
 be compared terminated the program

---
 include/rtti/detail/variant_impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 4b7742d..9097d89 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -172,7 +172,7 @@ struct variant_function_table_impl<T, true, true>
     { /* do nothing */ }
 
     static bool compare_eq(variant_type_storage const &lhs, void const *rhs)
-        noexcept(has_nt_eq_v<Decay, Decay>)
+        noexcept(has_nt_eq_v<Base, Base>)
     {
         return type_manager_t<Decay>::compare_eq(lhs.ptr, rhs);
     }
@@ -185,6 +185,7 @@ private:
     using UConstLref = std::add_lvalue_reference_t<std::add_const_t<U>>;
 
     using Decay = std::conditional_t<std::is_array_v<U>, remove_all_cv_t<U>, full_decay_t<U>>;
+    using Base = std::remove_all_extents_t<Decay>;
 };
 
 template<typename T>
-- 
2.43.0


From 6e01ce99b85f7f626483ecaf91fb6ef32577ca78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:21 +0000
Subject: [PATCH 27/56] fix: type was reported compatible with arrays, and
 arrays with values of their elements

---
 src/metatype.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/metatype.cpp b/src/metatype.cpp
index 582d84a..d46d6e8 100644
--- a/src/metatype.cpp
+++ b/src/metatype.cpp
@@ -170,13 +170,16 @@ bool MetaType::compatible(MetaType fromType, MetaType toType) noexcept
     if (fromType.isLvalueReference() && toType.isRvalueReference())
         return false;
 
+    // only an array can be seen as an array
+    if (!fromType.isArray() && toType.isArray())
+        return false;
     // check array length
     if (fromType.isArray() && toType.isArray() && (fromType.typeSize() < toType.typeSize()))
         return false;
 
     // decay array to pointer
     auto arity1 = fromType.m_typeInfo->arity;
-    if (fromType.isArray() && toType.isPointer())
+    if (fromType.isArray() && !toType.isArray())
         ++arity1;
 
     // compare pointer arity
-- 
2.43.0


From abcf844eee16bdbbb13b4b41d5191b73d042e02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:21 +0000
Subject: [PATCH 28/56] fix: constness and depth of pointers inside of arrays
 were ignored

---
 include/rtti/misc_traits.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/rtti/misc_traits.h b/include/rtti/misc_traits.h
index 2c6339e..da02a2e 100644
--- a/include/rtti/misc_traits.h
+++ b/include/rtti/misc_traits.h
@@ -76,6 +76,11 @@ struct pointer_arity<T, true>:
     std::integral_constant<std::size_t, pointer_arity_v<std::remove_pointer_t<T>> + 1>
 {};
 
+// pointers inside of an array
+template<typename T, std::size_t N>
+struct pointer_arity<T[N], false>: pointer_arity<T>
+{};
+
 //-----------------------------------------------------------------------------------------------------------------------------
 
 template<typename T, bool = std::is_pointer_v<T>>
@@ -209,6 +214,14 @@ struct const_bitset_helper<T, I, true, true>:
     std::integral_constant<std::size_t, (1 << I) + const_bitset_helper_v<std::remove_pointer_t<T>, I - 1>>
 {};
 
+template<typename T, std::size_t N, std::size_t I>
+struct const_bitset_helper<T[N], I, false, false>: const_bitset_helper<T, I>
+{};
+
+template<typename T, std::size_t N, std::size_t I>
+struct const_bitset_helper<T[N], I, true, false>: const_bitset_helper<T, I>
+{};
+
 } // namespace internal
 
 template<typename T>
-- 
2.43.0


From e912376800fab96c0b4556b84b91511bbbb8b743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:21 +0000
Subject: [PATCH 29/56] fix: variant dropped constness of what the pointers of
 an array point to

---
 include/rtti/detail/variant_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 9097d89..2ae3be2 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -328,7 +328,7 @@ struct variant_function_table_impl<T[N], false, false>
         return type_manager_t<Decay>::compare_eq(lhs.ptr, rhs);
     }
 private:
-    using U = Decay;
+    using U = std::remove_cv_t<T[N]>;
     using ULref = std::add_lvalue_reference_t<U>;
     using URref = std::add_rvalue_reference_t<U>;
     using UConstLref = std::add_lvalue_reference_t<std::add_const_t<U>>;
-- 
2.43.0


From 0306c9dce303be35dc28e27a30f7a40f334180f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:05 +0000
Subject: [PATCH 30/56] fix: after a refused registration the following _end
 returned to the wrong container

---
 include/rtti/metadefine.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index 5bafb6c..8b8a937 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -867,8 +867,9 @@ public:
         static_assert(std::is_void_v<T>, "Namespace can be defined only in another namespace");
         assert(m_currentContainer && m_currentContainer->category() == mcatNamespace && m_containerStack);
 
+        auto *container = MetaNamespace::create(name, *m_currentContainer, {});
         m_containerStack->push(m_currentContainer);
-        m_currentContainer = MetaNamespace::create(name, *m_currentContainer, {});
+        m_currentContainer = container;
         m_currentItem = m_currentContainer;
         return meta_define<void, this_t>{m_currentItem, m_currentContainer, m_containerStack};
     }
@@ -882,9 +883,10 @@ public:
                       "Class can be defined in namespace or anther class");
         assert(m_currentContainer && m_containerStack);
 
-        m_containerStack->push(m_currentContainer);
-        m_currentContainer = MetaClass::create(
+        auto *container = MetaClass::create(
             name, *m_currentContainer, metaTypeId<C>(), {});
+        m_containerStack->push(m_currentContainer);
+        m_currentContainer = container;
         m_currentItem = m_currentContainer;
 
         meta_define<C, this_t> result {m_currentItem, m_currentContainer, m_containerStack};
-- 
2.43.0


From 28e448887ac6929bd0ca6d5d27898d069c32203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:02 +0000
Subject: [PATCH 31/56] fix: method whose name contains parentheses was not
 found by its name but by a part of it

---
 src/metacontainer.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/metacontainer.cpp b/src/metacontainer.cpp
index 728438c..b7ce2fa 100644
--- a/src/metacontainer.cpp
+++ b/src/metacontainer.cpp
@@ -91,6 +91,23 @@ inline bool MetaContainerPrivate::addItem(MetaItem *value)
     return m_lists[category]->add(value);
 }
 
+// Parameters are in the last parentheses, name itself may contain other ones: operator()
+static std::size_t find_parameters(std::string const &signature)
+{
+    auto depth = std::size_t{0};
+    for (auto pos = signature.size(); pos-- > 0;)
+    {
+        if (signature[pos] == ')')
+            ++depth;
+        else if (signature[pos] == '(' && depth && --depth == 0)
+            return pos;
+
+        if (!depth)
+            break;
+    }
+    return std::string::npos;
+}
+
 MetaItem* MetaContainerPrivate::findMethod(MetaCategory category, std::string_view name) const
 {
     MetaItem *result = nullptr;
@@ -98,7 +115,7 @@ MetaItem* MetaContainerPrivate::findMethod(MetaCategory category, std::string_vi
     {
         auto const &methodName = item->name();
 
-        if (auto pos = methodName.find('(');
+        if (auto pos = find_parameters(methodName);
             pos != std::string::npos)
         {
             auto length = std::min(pos, name.size());
-- 
2.43.0


From b48fc096d6c04367b0ffc5830990f8e14cc45643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 32/56] fix: enum elements could not be given from variant
 lvalues

---
 include/rtti/metaenum.h | 3 +++
 src/metaenum.cpp        | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/include/rtti/metaenum.h b/include/rtti/metaenum.h
index da41952..dc13681 100644
--- a/include/rtti/metaenum.h
+++ b/include/rtti/metaenum.h
@@ -27,6 +27,7 @@ protected:
     explicit MetaEnum(std::string_view name, const MetaContainer &owner, MetaType_ID typeId);
     static MetaEnum* create(std::string_view name, MetaContainer &owner, MetaType_ID typeId);
 
+    void addElement(std::string_view name, variant const &value);
     void addElement(std::string_view name, variant &&value);
 private:
     DECLARE_ACCESS_KEY(CreateAccessKey)
@@ -35,6 +36,8 @@ private:
 public:
     static MetaEnum* create(std::string_view name, MetaContainer &owner, MetaType_ID typeId, CreateAccessKey)
     { return create(name, owner, typeId); }
+    void addElement(std::string_view name, variant const &value, CreateAccessKey)
+    { addElement(name, value); }
     void addElement(std::string_view name, variant &&value, CreateAccessKey)
     { addElement(name, std::move(value)); }
 };
diff --git a/src/metaenum.cpp b/src/metaenum.cpp
index 6b5018f..85fc607 100644
--- a/src/metaenum.cpp
+++ b/src/metaenum.cpp
@@ -22,6 +22,12 @@ MetaEnum* MetaEnum::create(std::string_view name, MetaContainer &owner, MetaType
     return result;
 }
 
+void MetaEnum::addElement(std::string_view name, variant const &value)
+{
+    auto d = d_func();
+    d->m_elements.set(name, value);
+}
+
 void MetaEnum::addElement(std::string_view name, variant &&value)
 {
     auto d = d_func();
-- 
2.43.0


From d4aeaf82b74970c2ccd298be132a3345abf81f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 33/56] fix: run pending deferred definition before attributes
 and bases are added

Attribute set or base class added after the deferred definition was attached
must override or follow what the definition gives, like all other items do.
---
 src/metaclass.cpp | 1 +
 src/metaitem.cpp  | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/metaclass.cpp b/src/metaclass.cpp
index 343db84..0f48b94 100644
--- a/src/metaclass.cpp
+++ b/src/metaclass.cpp
@@ -105,6 +105,7 @@ void MetaClass::addBaseClass(MetaType_ID typeId, cast_func_t caster)
     if (!base)
         throw unregistered_metaclass{"Base class "s + type.typeName() + " not registered"};
 
+    checkDeferredDefine();
     auto d = d_func();
     d->m_baseClasses.add(typeId, caster);
     base->addDerivedClass(d->m_typeId);
diff --git a/src/metaitem.cpp b/src/metaitem.cpp
index c9db09a..a711782 100644
--- a/src/metaitem.cpp
+++ b/src/metaitem.cpp
@@ -136,12 +136,14 @@ void MetaItem::for_each_attribute(enum_attribute_t const &func) const
 
 void MetaItem::setAttribute(std::string_view name, variant const &value)
 {
+    checkDeferredDefine();
     auto d = d_func();
     d->m_attributes.set(name, value);
 }
 
 void MetaItem::setAttribute(std::string_view name, variant &&value)
 {
+    checkDeferredDefine();
     auto d = d_func();
     d->m_attributes.set(name, std::move(value));
 }
-- 
2.43.0


From ade02810403d4cbaa15e15b1c26c08da0d9dde62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 34/56] fix: recursive definition reaches items added to
 visited containers

Deferred definition may add a container with its own deferred definition to a
container that was already visited, it was left undefined.
---
 include/rtti/metacontainer.h |  1 +
 src/metacontainer.cpp        | 37 +++++++++++++++++++++---------------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/include/rtti/metacontainer.h b/include/rtti/metacontainer.h
index ae3b321..0665bf2 100644
--- a/include/rtti/metacontainer.h
+++ b/include/rtti/metacontainer.h
@@ -93,6 +93,7 @@ protected:
 
     void setDeferredDefine(std::unique_ptr<IDefinitionCallbackHolder> callback);
     RTTI_PRIVATE void checkDeferredDefine() const override;
+    RTTI_PRIVATE bool defineRecursive() const;
 
     RTTI_PRIVATE virtual MetaMethod const* getMethodInternal(std::string_view name) const;
     RTTI_PRIVATE virtual MetaProperty const* getPropertyInternal(std::string_view name) const;
diff --git a/src/metacontainer.cpp b/src/metacontainer.cpp
index b7ce2fa..def0876 100644
--- a/src/metacontainer.cpp
+++ b/src/metacontainer.cpp
@@ -202,24 +202,31 @@ void MetaContainer::forceDeferredDefine(ForceDeferred type) const
         checkDeferredDefine();
     else if (type == ForceDeferred::Recursive)
     {
-        checkDeferredDefine();
-        auto d = d_func();
-        d->m_classes.for_each([](MetaItem *item)
-        {
-            auto *c = static_cast<MetaClass const*>(item);
-            c->forceDeferredDefine(ForceDeferred::Recursive);
-            return true;
-        });
-
-        d->m_namespaces.for_each([](MetaItem const *item)
-        {
-            auto *ns = static_cast<MetaContainer const*>(item);
-            ns->forceDeferredDefine(ForceDeferred::Recursive);
-            return true;
-        });
+        // Deferred definition may add to the containers that are visited already
+        while (defineRecursive()) {}
     }
 }
 
+// Returns true if any deferred definition was completed
+bool MetaContainer::defineRecursive() const
+{
+    auto d = d_func();
+    auto result = d->m_deferredDefine_pending.load(std::memory_order_acquire);
+    checkDeferredDefine();
+    // Still pending if it is in progress by this thread
+    result = result && !d->m_deferredDefine_pending.load(std::memory_order_acquire);
+
+    auto define = [&result](MetaItem const *item)
+    {
+        if (static_cast<MetaContainer const*>(item)->defineRecursive())
+            result = true;
+        return true;
+    };
+    d->m_classes.for_each(define);
+    d->m_namespaces.for_each(define);
+    return result;
+}
+
 //--------------------------------------------------------------------------------------------------------------------------------
 // Common items
 //--------------------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 98bc455d9597df9df0ac813ab109036e2bec8e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 35/56] fix: list of base classes is added as a whole or not at
 all

When one of the classes was not registered those listed before it were left added.
---
 include/rtti/metadefine.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index 8b8a937..d7dac8a 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -7,6 +7,7 @@
 #include <rtti/metanamespace.h>
 #include <rtti/metacontainer.h>
 #include <rtti/metaitem.h>
+#include <rtti/metaerror.h>
 #include <rtti/signature.h>
 
 #include <stack>
@@ -1025,12 +1026,22 @@ private:
         using type = C;
     };
 
+    template<typename B>
+    static void requireRegistered()
+    {
+        using namespace std::literals;
+        if (!MetaClass::find(metaTypeId<B>()))
+            throw unregistered_metaclass{"Base class "s + type_name<B>() + " not registered"};
+    }
+
     template<typename L, std::size_t ...I>
     static void addBaseTypeList(MetaClass *item, mpl::index_sequence<I...>)
     {
         // check that every type is class
         static_assert(mpl::is_typelist_v<mpl::typelist_map_t<L, check_is_class>>, "");
 
+        // nothing is added if any of the classes can't be
+        (requireRegistered<mpl::typelist_get_t<L, I>>(), ...);
         EXPAND(
             item->addBaseClass(metaTypeId<mpl::typelist_get_t<L, I>>(),
                 &internal::metacast_to_base<T, mpl::typelist_get_t<L, I>>, {})
-- 
2.43.0


From ef5ac4e936b7ae6ea5cee562f3523fc0d433975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 36/56] fix: casts to ambiguous base classes gave an arbitrary
 subobject

MetaClass::cast took the first path to the base class, so that meta_cast up to
a base of a repeated class could give the base of another one, and a cast down
or across to an ambiguous class gave one of them where dynamic_cast gives null.
---
 include/rtti/metaclass.h |  9 +++++----
 include/rtti/variant.h   |  5 ++++-
 src/metaclass.cpp        | 19 ++++++++++---------
 3 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/include/rtti/metaclass.h b/include/rtti/metaclass.h
index aff8c50..55c8d46 100644
--- a/include/rtti/metaclass.h
+++ b/include/rtti/metaclass.h
@@ -104,10 +104,11 @@ To const* meta_cast(From const *from, std::true_type)
     if (!fromClass || !toClass)
         return nullptr;
 
-    auto result = fromClass->cast(toClass, info.instance, {});
-    if (!result)
-        return nullptr;
-    return static_cast<To const*>(result);
+    // Up-cast doesn't depend on dynamic type
+    if constexpr(std::is_convertible_v<From const*, To const*>)
+        return fromClass->inheritedFrom(toClass) ? static_cast<To const*>(from) : nullptr;
+    else
+        return static_cast<To const*>(fromClass->cast(toClass, info.instance, {}));
 }
 
 template<typename To, typename From>
diff --git a/include/rtti/variant.h b/include/rtti/variant.h
index 6137f22..6130c1c 100644
--- a/include/rtti/variant.h
+++ b/include/rtti/variant.h
@@ -414,7 +414,10 @@ private:
             auto toClass   = MetaClass::find(metaTypeId<C>());
             if (!fromClass || !toClass)
                 return false;
-            return fromClass->inheritedFrom(toClass);
+            // null pointer can be casted to any base class
+            if (!info.instance)
+                return fromClass->inheritedFrom(toClass);
+            return fromClass->cast(toClass, info.instance, {}) != nullptr;
         }
     };
 
diff --git a/src/metaclass.cpp b/src/metaclass.cpp
index 0f48b94..39d8fed 100644
--- a/src/metaclass.cpp
+++ b/src/metaclass.cpp
@@ -155,28 +155,29 @@ void const* MetaClass::cast(MetaClass const *base, void const *instance) const
     if (!base)
         return nullptr;
 
-    auto result = instance;
     if (base == this)
-        return result;
+        return instance;
 
     checkDeferredDefine();
-    auto d     = d_func();
-    auto found = false;
-    d->m_baseClasses.for_each([&result, base, &found](auto const &item)
+    auto d      = d_func();
+    auto result = static_cast<void const *>(nullptr);
+    d->m_baseClasses.for_each([&result, base, instance](auto const &item)
     {
         auto directBase = find(item.first);
         assert(directBase);
         if (directBase->inheritedFrom(base))
         {
             // cast to direct base
-            result = directBase->cast(base, item.second(result));
-            found  = true;
-            return false;
+            auto ptr = directBase->cast(base, item.second(instance));
+            // different subobjects of the same type are ambiguous
+            auto ambiguous = !ptr || (result && result != ptr);
+            result = ambiguous ? nullptr : ptr;
+            return !ambiguous;
         }
         return true;
     });
 
-    return (found ? result : nullptr);
+    return result;
 }
 
 void* MetaClass::cast(MetaClass const *base, void *instance) const
-- 
2.43.0


From 3cd3eaca45b234f5d10902b4fad58034df97ac8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:39 +0000
Subject: [PATCH 37/56] fix: variant of pointer could be written as pointer to
 its base class

Mutable reference to the stored pointer to derived class was given as reference
to pointer to base class, then any other object of the base class could be
stored as object of the derived one.
---
 include/rtti/variant.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/rtti/variant.h b/include/rtti/variant.h
index 6130c1c..f7053a5 100644
--- a/include/rtti/variant.h
+++ b/include/rtti/variant.h
@@ -480,7 +480,8 @@ private:
         static void const* cast(variant const &self, MetaType from,
                                 std::integral_constant<int, 2>)
         {
-            if (from.isClassPtr())
+            // pointer to another class must not be written through the reference
+            if (std::is_const_v<T> && from.isClassPtr())
             {
                 if (auto ptr = cast_imp(self))
                 {
-- 
2.43.0


From 9a5cff933a226df2b316278e66bd4ca0b1d1a448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 38/56] fix: objects that can't be copied couldn't be given to
 static methods as first argument

---
 include/rtti/detail/metamethod_impl.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/rtti/detail/metamethod_impl.h b/include/rtti/detail/metamethod_impl.h
index b8019e2..b966be5 100644
--- a/include/rtti/detail/metamethod_impl.h
+++ b/include/rtti/detail/metamethod_impl.h
@@ -3,6 +3,19 @@
 
 namespace rtti {
 
+namespace internal {
+
+// Variant of instance can be made from the first argument
+template<typename ...Args>
+struct has_instance: std::false_type
+{};
+
+template<typename Arg, typename ...Args>
+struct has_instance<Arg, Args...>: std::is_constructible<std::decay_t<Arg>, Arg>
+{};
+
+} // namespace internal
+
 template<typename ...Args>
 variant MetaMethod::invoke(Args&&... args) const
 {
@@ -11,7 +24,7 @@ variant MetaMethod::invoke(Args&&... args) const
     auto interface = invoker();
     if (interface->isStatic())
         return interface->invoke_static(std::forward<Args>(args)...);
-    else if constexpr(sizeof...(Args) > 0)
+    else if constexpr(internal::has_instance<Args&&...>::value)
         return interface->invoke_method(std::forward<Args>(args)...);
     else
         throw invoke_error{"Trying to invoke method " + qualifiedName() + " without instance"};
-- 
2.43.0


From 973db3aaea120a1ba404c4207b43b6421071df21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 39/56] fix: std::ref given as argument was taken for an
 expiring object

---
 include/rtti/detail/argument_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rtti/detail/argument_impl.h b/include/rtti/detail/argument_impl.h
index 5738973..238beaf 100644
--- a/include/rtti/detail/argument_impl.h
+++ b/include/rtti/detail/argument_impl.h
@@ -5,7 +5,7 @@ namespace rtti {
 
 template<typename T, typename>
 argument::argument(T &&value) noexcept
-    : m_rvalue(!std::is_reference_v<T>)
+    : m_rvalue(!std::is_reference_v<T> && !internal::is_reference_wrapper_v<std::decay_t<T>>)
     , m_value{std::ref(value)}
 {}
 
-- 
2.43.0


From 7f70c82b82b7841ae93ef2db476544a6d19e695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 40/56] fix: arguments after an empty one were ignored

---
 include/rtti/metadefine.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index d7dac8a..a0c9932 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -91,9 +91,8 @@ inline argument_array_t pack_arguments(std::size_t count,
 
     for (auto const &item: result)
     {
-        if (item->empty())
-            break;
-        --count;
+        if (!item->empty())
+            --count;
     }
 
     if (count != 0)
-- 
2.43.0


From f66f9f5ec867051f4ff1db47c63f198fa0a6c6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 41/56] fix: methods and properties were used on null pointers

---
 include/rtti/metadefine.h | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/rtti/metadefine.h b/include/rtti/metadefine.h
index a0c9932..03a7f6a 100644
--- a/include/rtti/metadefine.h
+++ b/include/rtti/metadefine.h
@@ -107,6 +107,16 @@ inline std::string incompatible_instance(MetaType type)
     return "Incompatible instance type: "s + type.typeName() + " -> ";
 }
 
+template<typename Ptr, typename Variant>
+inline Ptr instance_pointer(Variant &instance)
+{
+    using namespace std::literals;
+    auto result = instance.template to<Ptr>();
+    if (!result)
+        throw bad_variant_cast{"Instance is null pointer: "s + type_name<Ptr>()};
+    return result;
+}
+
 template<typename F>
 struct method_invoker<F, void_static_func>
 {
@@ -309,7 +319,7 @@ private:
                                        type_name<class_ref_t>()};
         }
         else if (type.isClassPtr())
-            (instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...);
+            (instance_pointer<class_ptr_t>(instance)->*func)(args[I]->value<argument_get_t<I>>()...);
         else
             throw bad_variant_cast{incompatible_instance(type) + type_name<class_ref_t>()};
 
@@ -324,7 +334,7 @@ private:
         if (type.isClass())
             (instance.ref<class_t>().*func)(args[I]->value<argument_get_t<I>>()...);
         else if (type.isClassPtr())
-            (instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...);
+            (instance_pointer<class_ptr_t>(instance)->*func)(args[I]->value<argument_get_t<I>>()...);
         else
             throw bad_variant_cast{incompatible_instance(type) + type_name<class_ref_t>()};
 
@@ -426,7 +436,7 @@ private:
                                        type_name<class_ref_t>()};
         }
         else if (type.isClassPtr())
-            return reference_get((instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...));
+            return reference_get((instance_pointer<class_ptr_t>(instance)->*func)(args[I]->value<argument_get_t<I>>()...));
 
         throw bad_variant_cast{incompatible_instance(type) + type_name<class_ref_t>()};
     }
@@ -439,7 +449,7 @@ private:
         if (type.isClass())
             return reference_get((instance.ref<class_t>().*func)(args[I]->value<argument_get_t<I>>()...));
         else if (type.isClassPtr())
-            return reference_get((instance.to<class_ptr_t>()->*func)(args[I]->value<argument_get_t<I>>()...));
+            return reference_get((instance_pointer<class_ptr_t>(instance)->*func)(args[I]->value<argument_get_t<I>>()...));
 
         throw bad_variant_cast{incompatible_instance(type) + type_name<class_ref_t>()};
     }
@@ -707,7 +717,7 @@ struct property_invoker<P, member_pointer>
         if (type.isClass())
             return std::ref(instance.ref<C const>().*property);
         else if (type.isClassPtr())
-            return std::ref(instance.to<C const *>()->*property);
+            return std::ref(instance_pointer<C const *>(instance)->*property);
         throw bad_variant_cast{incompatible_instance(type) + type_name<C const&>()};
     }
 
@@ -723,7 +733,7 @@ struct property_invoker<P, member_pointer>
                 throw bad_variant_cast{"Incompatible types: const rtti::variant& -> "s +
                                        type_name<class_ref_t>()};
             else if (type.isClassPtr())
-                instance.to<C*>()->*property = arg.value<T>();
+                instance_pointer<C*>(instance)->*property = arg.value<T>();
             else
                 throw bad_variant_cast{incompatible_instance(type) + type_name<class_ref_t>()};
         }
@@ -739,7 +749,7 @@ struct property_invoker<P, member_pointer>
             if (type.isClass())
                 instance.ref<C>().*property = arg.value<T>();
             else if (type.isClassPtr())
-                instance.to<C*>()->*property = arg.value<T>();
+                instance_pointer<C*>(instance)->*property = arg.value<T>();
             else
                 throw bad_variant_cast{incompatible_instance(type) + type_name<class_ref_t>()};
         }
-- 
2.43.0


From 28cb626f648038f79f16408ca6866d2d4638033b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 42/56] fix: item wasn't destroyed or was left without a name
 when it couldn't be added

---
 src/metacontainer.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/metacontainer.cpp b/src/metacontainer.cpp
index def0876..e68a63a 100644
--- a/src/metacontainer.cpp
+++ b/src/metacontainer.cpp
@@ -23,6 +23,9 @@ bool MetaItemList::add(MetaItem *value)
     if (!value)
         return false;
 
+    // Item is destroyed if it can't be added because of an exception
+    auto holder = item_t{value};
+
     std::unique_lock<std::shared_mutex> lock{m_lock};
     auto itemFound = (std::find_if(
                           std::cbegin(m_items), std::cend(m_items),
@@ -35,11 +38,13 @@ bool MetaItemList::add(MetaItem *value)
 
     if (!itemFound && !nameFound)
     {
-        auto index = m_items.size();
-        m_items.emplace_back(value);
-        m_names.emplace(name, index);
+        auto pos = m_names.emplace(name, m_items.size()).first;
+        FINALLY_EX(guard) { m_names.erase(pos); };
+        m_items.push_back(std::move(holder));
+        guard.dismiss();
         return true;
     }
+    holder.release();
     return false;
 }
 
-- 
2.43.0


From a523d7ea55f3f95ceca5de264439ab77e6533449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 43/56] fix: class that couldn't be created was left in its
 type

---
 src/metaclass.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/metaclass.cpp b/src/metaclass.cpp
index 39d8fed..dba6823 100644
--- a/src/metaclass.cpp
+++ b/src/metaclass.cpp
@@ -2,6 +2,7 @@
 #include "metatype_p.h"
 
 #include <rtti/metaerror.h>
+#include <rtti/finally.h>
 #include <cassert>
 
 namespace rtti {
@@ -33,12 +34,14 @@ MetaClass* MetaClass::create(std::string_view name, MetaContainer &owner, MetaTy
         result = new MetaClass(name, owner, typeId);
         // Class can be found by name only when its type is already linked
         metaClass.store(result);
+        FINALLY_EX(guard) { metaClass.store(nullptr); };
         if (!INVOKE_PROTECTED(owner, addItem, result))
         {
             metaClass.store(nullptr);
             delete result;
             result = const_cast<MetaClass *>(owner.getClass(name));
         }
+        guard.dismiss();
     }
     else if (result->metaTypeId() != typeId)
         throw duplicate_metaclass{"Class "s + result->qualifiedName() + " already registered for type: "
-- 
2.43.0


From 4eddfece04eb40127b71ea519703d7a7e6c8c39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 44/56] fix: attribute that couldn't be added was left without
 a name

---
 src/private/metaitem_p.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/private/metaitem_p.h b/src/private/metaitem_p.h
index af47bde..8371481 100644
--- a/src/private/metaitem_p.h
+++ b/src/private/metaitem_p.h
@@ -3,6 +3,7 @@
 
 #include <rtti/metaitem.h>
 #include <rtti/variant.h>
+#include <rtti/finally.h>
 
 #include <shared_mutex>
 #include <vector>
@@ -58,8 +59,11 @@ namespace internal {
         std::unique_lock lock{m_lock};
         if (auto search = m_names.find(name); search == std::end(m_names))
         {
-            auto &item = m_items.emplace_back(new named_variant{name, std::forward<T>(value)});
-            m_names.emplace(item->name, m_items.size() - 1);
+            auto item = std::make_unique<named_variant>(name, std::forward<T>(value));
+            auto pos  = m_names.emplace(item->name, m_items.size()).first;
+            FINALLY_EX(guard) { m_names.erase(pos); };
+            m_items.push_back(std::move(item));
+            guard.dismiss();
         }
         else
         {
-- 
2.43.0


From 7bc4230009e0a2fe0b36ac8ad56fef31d324a28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 45/56] fix: type that couldn't be registered was left without
 a name

---
 src/metatype.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/metatype.cpp b/src/metatype.cpp
index d46d6e8..ae435b4 100644
--- a/src/metatype.cpp
+++ b/src/metatype.cpp
@@ -86,7 +86,9 @@ TypeInfo const* CustomTypes::addTypeInfo(std::string_view name, std::size_t size
     if (auto it = m_names.find(name); it == std::end(m_names))
     {
         auto &result = m_items.emplace_front(name, size, decay, arity, const_mask, flags, manager);
+        FINALLY_EX(guard) { m_items.pop_front(); };
         m_names.emplace(name, &result);
+        guard.dismiss();
         return &result;
     }
     else
-- 
2.43.0


From ba987d0a1770338b9bb410f8c7c84456bc89098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:53 +0000
Subject: [PATCH 46/56] fix: signature was cut when memory was exhausted

---
 include/rtti/signature.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/rtti/signature.h b/include/rtti/signature.h
index 7305282..293f4c4 100644
--- a/include/rtti/signature.h
+++ b/include/rtti/signature.h
@@ -56,6 +56,7 @@ struct signature
     static std::string get(std::string_view name)
     {
         std::ostringstream os;
+        os.exceptions(std::ios_base::badbit | std::ios_base::failbit);
         auto it = prefix_ostream_iterator<std::string_view>{os, ", "};
         os << name << '(';
         (it = ... = type_name<Args>());
-- 
2.43.0


From f4115277a14ecc69211f48054545bdb5c82673a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 47/56] fix: name of a missing attribute is available before
 the library is initialised

---
 src/metaitem.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/metaitem.cpp b/src/metaitem.cpp
index a711782..d26ad62 100644
--- a/src/metaitem.cpp
+++ b/src/metaitem.cpp
@@ -5,7 +5,12 @@
 namespace rtti {
 
 namespace {
-    std::string const empty_string = {};
+    // Available at any time: to constructors and destructors of static objects as well
+    std::string const& empty_string()
+    {
+        static auto const &result = *new std::string{};
+        return result;
+    }
 } // namespace
 
 namespace internal {
@@ -35,7 +40,7 @@ namespace internal {
         std::shared_lock<std::shared_mutex> lock{m_lock};
         if (index < m_items.size())
             return m_items[index]->name;
-        return empty_string;
+        return empty_string();
     }
 
 } // namespace internal
-- 
2.43.0


From b93a1dc2193a96a9cfdebdcb5c8d40081406350c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 48/56] fix: empty variant is constant initialised, static
 objects may refer to it before the library is initialised

---
 include/rtti/detail/variant_impl.h | 32 ++++++++++++++++++------------
 include/rtti/variant.h             |  6 +++++-
 src/variant.cpp                    |  2 +-
 3 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/include/rtti/detail/variant_impl.h b/include/rtti/detail/variant_impl.h
index 2ae3be2..ea52f48 100644
--- a/include/rtti/detail/variant_impl.h
+++ b/include/rtti/detail/variant_impl.h
@@ -433,22 +433,23 @@ inline variant_function_table const* variant_function_table_for() noexcept
     return &result;
 }
 
+inline constexpr auto void_function_table = variant_function_table{
+    [] (type_attribute) noexcept -> MetaType_ID { return MetaType_ID(); },
+    [] (variant_type_storage const&) noexcept -> void const* { return nullptr; },
+    [] (void const*, variant_type_storage&) noexcept {},
+    [] (void*, variant_type_storage&) noexcept {},
+    [] (variant_type_storage const&, variant_type_storage&) noexcept {},
+    [] (variant_type_storage&, variant_type_storage&) noexcept {},
+    [] (variant_type_storage&) noexcept {},
+    [] (variant_type_storage const&, void const*) noexcept -> bool { return false; },
+    [] (variant_type_storage const&) noexcept { return ClassInfo(); },
+    [] (void const*) noexcept -> std::size_t { return 0; }
+};
+
 template<>
 inline variant_function_table const* variant_function_table_for<void>() noexcept
 {
-    static auto const result = variant_function_table{
-        [] (type_attribute) noexcept -> MetaType_ID { return MetaType_ID(); },
-        [] (variant_type_storage const&) noexcept -> void const* { return nullptr; },
-        [] (void const*, variant_type_storage&) noexcept {},
-        [] (void*, variant_type_storage&) noexcept {},
-        [] (variant_type_storage const&, variant_type_storage&) noexcept {},
-        [] (variant_type_storage&, variant_type_storage&) noexcept {},
-        [] (variant_type_storage&) noexcept {},
-        [] (variant_type_storage const&, void const*) noexcept -> bool { return false; },
-        [] (variant_type_storage const&) noexcept { return ClassInfo(); },
-        [] (void const*) noexcept -> std::size_t { return 0; }
-    };
-    return &result;
+    return &void_function_table;
 }
 
 template<>
@@ -471,6 +472,11 @@ inline variant_function_table const* variant_function_table_for<variant>() noexc
 
 } // namespace internal
 
+constexpr variant::variant(empty_t) noexcept
+    : storage{nullptr}
+    , manager{&internal::void_function_table}
+{}
+
 template<typename T, typename>
 variant::variant(T &&value)
     : manager{internal::variant_function_table_for<std::remove_reference_t<T>>()}
diff --git a/include/rtti/variant.h b/include/rtti/variant.h
index f7053a5..83be1bc 100644
--- a/include/rtti/variant.h
+++ b/include/rtti/variant.h
@@ -57,7 +57,7 @@ namespace internal {
         info_t const f_info                     = nullptr;
         hash_t const f_hash                     = nullptr;
 
-        variant_function_table(type_t type, access_t access, copy_construct_t copy_construct,
+        constexpr variant_function_table(type_t type, access_t access, copy_construct_t copy_construct,
                                move_construct_t move_construct, copy_t copy, move_t move,
                                destroy_t destroy, compare_eq_t compare_eq, info_t info, hash_t hash) noexcept
             : f_type{type}
@@ -338,6 +338,10 @@ public:
     using type_attribute = internal::type_attribute;
     static variant const empty_variant;
 private:
+    // Constant initialization, empty variant is available to constructors of static objects
+    struct empty_t {};
+    constexpr explicit variant(empty_t) noexcept;
+
     void swap(variant &other) noexcept;
 
     // Returns pointer to decayed type
diff --git a/src/variant.cpp b/src/variant.cpp
index 681f7c3..739412a 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -2,7 +2,7 @@
 
 namespace rtti {
 
-variant const variant::empty_variant = {};
+variant const variant::empty_variant{empty_t{}};
 
 variant::variant() noexcept
     : manager(internal::variant_function_table_for<void>())
-- 
2.43.0


From 3eb939bc85de3a82ed7c1ef0152013207eee787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 49/56] fix: values of different types aren't compared after
 the types are destroyed at exit

---
 src/variant.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/variant.cpp b/src/variant.cpp
index 739412a..b151e5c 100644
--- a/src/variant.cpp
+++ b/src/variant.cpp
@@ -101,7 +101,8 @@ bool variant::operator==(variant const &value) const
     auto mt_left  = MetaType{this->internalTypeId(type_attribute::LREF_CONST)};
     auto mt_right = MetaType{value.internalTypeId(type_attribute::LREF_CONST)};
 
-    if (mt_right.decayId() == mt_left.decayId())
+    // All types are invalid when they aren't available anymore
+    if (mt_left.valid() && mt_right.decayId() == mt_left.decayId())
     {
         // Array decays to pointer, but it holds elements
         auto sameLayout = (mt_right.isArray() == mt_left.isArray())
-- 
2.43.0


From 688f47f5c4f2e760594905928bcdcf7c6227af3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 50/56] fix: converters destroyed at exit may ask for
 converters

---
 src/metatype.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metatype.cpp b/src/metatype.cpp
index ae435b4..415fb6e 100644
--- a/src/metatype.cpp
+++ b/src/metatype.cpp
@@ -333,9 +333,9 @@ namespace {
 
         ~MetaTypeFunctionList()
         {
-            std::unique_lock lock{m_lock};
-            m_items.clear();
+            // Converters may ask for other ones when they are destroyed
             Destroyed = true;
+            m_items.clear();
         }
 
         bool find(key_t const &key) const
-- 
2.43.0


From b243102421804672be7d5116814c911be647b35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 51/56] fix: type forgets its class when the class is destroyed
 before it at exit

---
 include/rtti/metaclass.h |  2 ++
 src/metaclass.cpp        | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/include/rtti/metaclass.h b/include/rtti/metaclass.h
index 55c8d46..49996ee 100644
--- a/include/rtti/metaclass.h
+++ b/include/rtti/metaclass.h
@@ -22,6 +22,8 @@ class RTTI_API MetaClass final: public MetaContainer
 public:
     using cast_func_t = void const*(*)(void const*);
 
+    ~MetaClass() override;
+
     MetaCategory category() const override;
     static MetaClass const* find(MetaType_ID typeId);
     static MetaClass const* find(std::string_view name);
diff --git a/src/metaclass.cpp b/src/metaclass.cpp
index dba6823..d140f8b 100644
--- a/src/metaclass.cpp
+++ b/src/metaclass.cpp
@@ -15,6 +15,17 @@ MetaClass::MetaClass(std::string_view name, MetaContainer const &owner, MetaType
     : MetaContainer{*new MetaClassPrivate{name, owner, typeId}}
 {}
 
+MetaClass::~MetaClass()
+{
+    // Type may outlive the class, when both are destroyed at exit
+    auto type = MetaType{d_func()->m_typeId};
+    if (type.valid())
+    {
+        auto self = this;
+        type.typeInfo({})->metaClass.compare_exchange_strong(self, nullptr);
+    }
+}
+
 MetaClass* MetaClass::create(std::string_view name, MetaContainer &owner, MetaType_ID typeId)
 {
     using namespace std::literals;
-- 
2.43.0


From f960800cc57f06cdc9e7f69216dade151d5b50af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 52/56] fix: base classes that are destroyed already at exit
 are skipped

---
 src/metaclass.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/metaclass.cpp b/src/metaclass.cpp
index d140f8b..3da7416 100644
--- a/src/metaclass.cpp
+++ b/src/metaclass.cpp
@@ -3,7 +3,6 @@
 
 #include <rtti/metaerror.h>
 #include <rtti/finally.h>
-#include <cassert>
 
 namespace rtti {
 
@@ -152,8 +151,10 @@ bool MetaClass::inheritedFrom(MetaClass const *base) const
     auto result = false;
     d->m_baseClasses.for_each([&result, base](auto const &item)
     {
+        // base class isn't available anymore when the program exits
         auto directBase = find(item.first);
-        assert(directBase);
+        if (!directBase)
+            return true;
         if (directBase->inheritedFrom(base))
         {
             result = true;
@@ -177,8 +178,10 @@ void const* MetaClass::cast(MetaClass const *base, void const *instance) const
     auto result = static_cast<void const *>(nullptr);
     d->m_baseClasses.for_each([&result, base, instance](auto const &item)
     {
+        // base class isn't available anymore when the program exits
         auto directBase = find(item.first);
-        assert(directBase);
+        if (!directBase)
+            return true;
         if (directBase->inheritedFrom(base))
         {
             // cast to direct base
@@ -214,8 +217,10 @@ MetaMethod const* MetaClass::getMethodInternal(std::string_view name) const
     auto found = false;
     d->m_baseClasses.for_each([&result, &name, &found](item_t const &item)
     {
+        // base class isn't available anymore when the program exits
         auto directBase = find(item.first);
-        assert(directBase);
+        if (!directBase)
+            return true;
         result = directBase->getMethodInternal(name);
         if (result)
         {
@@ -242,8 +247,10 @@ MetaProperty const* MetaClass::getPropertyInternal(std::string_view name) const
     auto found = false;
     d->m_baseClasses.for_each([&result, &name, &found](item_t const &item)
     {
+        // base class isn't available anymore when the program exits
         auto directBase = find(item.first);
-        assert(directBase);
+        if (!directBase)
+            return true;
         result = directBase->getPropertyInternal(name);
         if (result)
         {
-- 
2.43.0


From b803a2709b8fed0db5d0c2cc40708715b863c544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:58 +0000
Subject: [PATCH 53/56] fix: typelist_foldr needed results that name themselves
 as type

---
 include/rtti/typelist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rtti/typelist.h b/include/rtti/typelist.h
index 54509b3..2695154 100644
--- a/include/rtti/typelist.h
+++ b/include/rtti/typelist.h
@@ -441,7 +441,7 @@ struct typelist_foldr: check_typelist<T>
 
 template<typename H, typename ...T, template<typename, typename> class F, typename I>
 struct typelist_foldr<type_list<H, T...>, F, I>:
-        F<H, typename typelist_foldr<type_list<T...>, F, I>::type>::type
+        F<H, typename typelist_foldr<type_list<T...>, F, I>::type>
 {};
 
 template<template<typename, typename> class F, typename I>
-- 
2.43.0


From e35a573de09166f39fe7df3e520b258a247e94dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:58 +0000
Subject: [PATCH 54/56] fix: a scope guard that was moved ran its function
 twice

---
 include/rtti/finally.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/rtti/finally.h b/include/rtti/finally.h
index 643beca..ad10c5a 100644
--- a/include/rtti/finally.h
+++ b/include/rtti/finally.h
@@ -15,8 +15,21 @@ public:
     scope_guard() = delete;
     scope_guard(scope_guard const&) = delete;
     scope_guard& operator=(scope_guard const&) = delete;
-    scope_guard(scope_guard &&) noexcept = default;
-    scope_guard& operator=(scope_guard &&) noexcept = default;
+    scope_guard(scope_guard &&other) noexcept
+        : m_dismiss{other.m_dismiss}, m_function{std::move(other.m_function)}
+    { other.dismiss(); } // the function is run only once
+    scope_guard& operator=(scope_guard &&other) noexcept
+    {
+        if (this != &other)
+        {
+            if (!m_dismiss)
+                m_function();
+            m_dismiss = other.m_dismiss;
+            m_function = std::move(other.m_function);
+            other.dismiss();
+        }
+        return *this;
+    }
     explicit scope_guard(F const &function)
         noexcept(std::is_nothrow_copy_constructible<F>::value)
         : m_function{function}
-- 
2.43.0


From 9707f62708079a51c3817bef1d97d5beea9207b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:58 +0000
Subject: [PATCH 55/56] fix: function traits of std::function, of qualified
 noexcept methods and make_function of noexcept functions did not compile

---
 include/rtti/function_traits.h | 102 ++++++++++++++++++++++++++++++++-
 1 file changed, 100 insertions(+), 2 deletions(-)

diff --git a/include/rtti/function_traits.h b/include/rtti/function_traits.h
index efec932..cdcbc1e 100644
--- a/include/rtti/function_traits.h
+++ b/include/rtti/function_traits.h
@@ -163,8 +163,89 @@ struct function_traits_helper<R(C::*)(Args...) const volatile &&>:
     using uniform_signature = R(C const volatile&&, Args...);
 };
 
+#if __cplusplus > 201402L
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) & noexcept>:
+    function_traits_helper<R(C::*)(Args...) noexcept>
+{
+    using is_lrefthis = std::true_type;
+};
+
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) && noexcept>:
+    function_traits_helper<R(C::*)(Args...) noexcept>
+{
+    using is_rrefthis = std::true_type;
+    using uniform_signature = R(C&&, Args...) noexcept;
+};
+
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) const & noexcept>:
+    function_traits_helper<R(C::*)(Args...) const noexcept>
+{
+    using is_lrefthis = std::true_type;
+};
+
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) const && noexcept>:
+    function_traits_helper<R(C::*)(Args...) const noexcept>
+{
+    using is_rrefthis = std::true_type;
+    using uniform_signature = R(C const&&, Args...) noexcept;
+};
+
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) volatile noexcept>:
+    function_traits_helper<R(*)(Args...) noexcept>
+{
+    using class_type = C;
+    using is_volatile = std::true_type;
+    using uniform_signature = R(volatile C&, Args...) noexcept;
+};
+
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) volatile & noexcept>:
+    function_traits_helper<R(C::*)(Args...) volatile noexcept>
+{
+    using is_lrefthis = std::true_type;
+};
+
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) volatile && noexcept>:
+    function_traits_helper<R(C::*)(Args...) volatile noexcept>
+{
+    using is_rrefthis = std::true_type;
+    using uniform_signature = R(volatile C&&, Args...) noexcept;
+};
+
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) const volatile noexcept>:
+    function_traits_helper<R(*)(Args...) noexcept>
+{
+    using class_type = C;
+    using is_const = std::true_type;
+    using is_volatile = std::true_type;
+    using uniform_signature = R(C const volatile&, Args...) noexcept;
+};
+
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) const volatile & noexcept>:
+    function_traits_helper<R(C::*)(Args...) const volatile noexcept>
+{
+    using is_lrefthis = std::true_type;
+};
+
+template<typename C, typename R, typename ...Args>
+struct function_traits_helper<R(C::*)(Args...) const volatile && noexcept>:
+    function_traits_helper<R(C::*)(Args...) const volatile noexcept>
+{
+    using is_rrefthis = std::true_type;
+    using uniform_signature = R(C const volatile&&, Args...) noexcept;
+};
+#endif
+
 template <typename F>
-struct function_traits_helper<std::function<F>>: function_traits_helper<F>
+struct function_traits_helper<std::function<F>>: function_traits_helper<F*>
 {};
 
 } // namespace internal
@@ -174,8 +255,25 @@ struct function_traits: internal::function_traits_helper<std::decay_t<F>>
 {};
 
 // Factory
+namespace internal {
+
+// std::function is not defined for noexcept signatures
+template<typename F>
+struct plain_signature: identity<F>
+{};
+
+#if __cplusplus > 201402L
+template<typename R, typename ...Args>
+struct plain_signature<R(Args...) noexcept>: identity<R(Args...)>
+{};
+#endif
+
+} // namespace internal
+
 template<typename F>
-using function_type = std::function<typename function_traits<F>::base_signature>;
+using function_type = std::function<
+    typename internal::plain_signature<typename function_traits<F>::base_signature>::type
+>;
 
 template<typename F>
 inline function_type<F> make_function(F &&f)
-- 
2.43.0


From 0cc92e3b082d151b7d283a027f5345d81754c37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:44 +0000
Subject: [PATCH 56/56] fix: attribute and element values were copied and
 destroyed under the lock of the list

---
 src/private/metaitem_p.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/private/metaitem_p.h b/src/private/metaitem_p.h
index 8371481..7f6caf7 100644
--- a/src/private/metaitem_p.h
+++ b/src/private/metaitem_p.h
@@ -56,10 +56,11 @@ namespace internal {
         if (name.empty())
             return;
 
+        // Value is copied and the previous one is destroyed outside of the lock
+        auto item = std::make_unique<named_variant>(name, std::forward<T>(value));
         std::unique_lock lock{m_lock};
         if (auto search = m_names.find(name); search == std::end(m_names))
         {
-            auto item = std::make_unique<named_variant>(name, std::forward<T>(value));
             auto pos  = m_names.emplace(item->name, m_items.size()).first;
             FINALLY_EX(guard) { m_names.erase(pos); };
             m_items.push_back(std::move(item));
@@ -67,9 +68,8 @@ namespace internal {
         }
         else
         {
-            auto index  = search->second;
-            auto &item  = m_items.at(index);
-            item->value = std::forward<T>(value);
+            auto index = search->second;
+            swap(m_items.at(index)->value, item->value);
         }
     }
 
-- 
2.43.0

