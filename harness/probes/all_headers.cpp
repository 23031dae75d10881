// Do the headers compile at all?
#include <embedded/circular_buffer_adapter.h>
#include <embedded/config.h>
#include <embedded/function.h>
#include <embedded/move_wrapper.h>
#include <embedded/mutex.h>
#include <embedded/signal/bessel.h>
#include <embedded/signal/butterworth.h>
#include <embedded/signal/chebyshev.h>
#include <embedded/signal/filter.h>
#include <embedded/typelist.h>
#include <embedded/type_traits.h>
#include <embedded/varint.h>
