
#ifndef RTTI_API_H
#define RTTI_API_H

#ifdef RTTI_STATIC
#  define RTTI_API
#  define RTTI_PRIVATE
#else
#  ifndef RTTI_API
#    ifdef rtti_EXPORTS
        /* We are building this library */
#      define RTTI_API __attribute__((visibility("default")))
#    else
        /* We are using this library */
#      define RTTI_API __attribute__((visibility("default")))
#    endif
#  endif

#  ifndef RTTI_PRIVATE
#    define RTTI_PRIVATE __attribute__((visibility("hidden")))
#  endif
#endif

#ifndef RTTI_DEPRECATED
#  define RTTI_DEPRECATED __attribute__ ((__deprecated__))
#endif

#ifndef RTTI_DEPRECATED_EXPORT
#  define RTTI_DEPRECATED_EXPORT RTTI_API RTTI_DEPRECATED
#endif

#ifndef RTTI_DEPRECATED_NO_EXPORT
#  define RTTI_DEPRECATED_NO_EXPORT RTTI_PRIVATE RTTI_DEPRECATED
#endif

#if 0 /* DEFINE_NO_DEPRECATED */
#  ifndef RTTI_NO_DEPRECATED
#    define RTTI_NO_DEPRECATED
#  endif
#endif

#endif /* RTTI_API_H */
