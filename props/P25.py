from .queue import *

harness = dict(src='P25.cpp', repo=['pwned-lib/operation.cpp', 'pwned-lib/operationexception.cpp', 'pwned-lib/uuid.cpp'], limit=300)

assumptions = ['atomics are sequentially consistent; what another thread may write is arbitrary at every load, and what a mutex protects is arbitrary, within the invariants, whenever it has just been taken',
               'operations are added before the queue is executed; it is executed when no scheduling thread runs, waited for after waitForScheduled, and not destroyed meanwhile',
               'std::mutex, lock guards, std::condition_variable (with spurious wake-ups), std::thread, std::list and std::priority_queue behave by their documented contracts; there is at least one processor and fewer than 2^32-1 permits',
               'exceptions are not followed (an operation that throws is only in the runs)',
               'execute() of an operation is arbitrary code that ends, or ends once told to cancel, and does not touch the queue except through Operation::wait']
