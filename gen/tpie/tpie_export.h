
#ifndef TPIE_EXPORT_H
#define TPIE_EXPORT_H

#ifdef TPIE_STATIC_DEFINE
#  define TPIE_EXPORT
#  define TPIE_NO_EXPORT
#else
#  ifndef TPIE_EXPORT
#    ifdef tpie_EXPORTS
        /* We are building this library */
#      define TPIE_EXPORT 
#    else
        /* We are using this library */
#      define TPIE_EXPORT 
#    endif
#  endif

#  ifndef TPIE_NO_EXPORT
#    define TPIE_NO_EXPORT 
#  endif
#endif

#ifndef TPIE_DEPRECATED
#  define TPIE_DEPRECATED __attribute__ ((__deprecated__))
#endif

#ifndef TPIE_DEPRECATED_EXPORT
#  define TPIE_DEPRECATED_EXPORT TPIE_EXPORT TPIE_DEPRECATED
#endif

#ifndef TPIE_DEPRECATED_NO_EXPORT
#  define TPIE_DEPRECATED_NO_EXPORT TPIE_NO_EXPORT TPIE_DEPRECATED
#endif

#if 1 /* DEFINE_NO_DEPRECATED */
#  ifndef TPIE_NO_DEPRECATED
#    define TPIE_NO_DEPRECATED
#  endif
#endif

#endif /* TPIE_EXPORT_H */
