// C02 (content), C03 (callbacks of user buffers), C04 (shared memory): histories of message operations on the real transports.
#include "msgworld.h"
using namespace mw;

static pbt::RegisterWorkerInit gInit{[] { CleanPredecessor(); }};

static void Go(pbt::Src& s, pbt::Case& c, Mode m, bool shm)
{
    World w(s, c, m, shm);
    w.Run();
}
CASE(content_zmq, 4) { Go(s, c, Mode::content, false); }
CASE(content_shm, 6) { Go(s, c, Mode::content, true); }
CASE(callbacks_zmq, 6) { Go(s, c, Mode::callbacks, false); }
CASE(callbacks_shm, 2) { Go(s, c, Mode::callbacks, true); }
CASE(memory_shm, 1) { Go(s, c, Mode::memory, true); }
