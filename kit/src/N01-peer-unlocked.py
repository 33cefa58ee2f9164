PROP = "N01"
NEEDS = "two reactions, on different threads, that send messages to the same peer at the same time"
BREAKS = "header and body of messages sent directly to another federate are mixed up with those of other messages"
EDITS = [("core/federated/federate.c", """  // Use a mutex lock to prevent multiple threads from simultaneously sending.
  LF_MUTEX_LOCK(&lf_outbound_socket_mutex);

  int* socket;
  if (message_type == MSG_TYPE_P2P_TAGGED_MESSAGE) {
    socket = &_fed.sockets_for_outbound_p2p_connections[federate];
    tracepoint_federate_to_federate(send_P2P_TAGGED_MSG, _lf_my_fed_id, federate, &current_message_intended_tag);
  } else {
""", """  int* socket;
  if (message_type == MSG_TYPE_P2P_TAGGED_MESSAGE) {
    socket = &_fed.sockets_for_outbound_p2p_connections[federate];
    tracepoint_federate_to_federate(send_P2P_TAGGED_MSG, _lf_my_fed_id, federate, &current_message_intended_tag);
  } else {
    // Use a mutex lock to prevent multiple threads from simultaneously sending to the RTI.
    LF_MUTEX_LOCK(&lf_outbound_socket_mutex);
"""), ("core/federated/federate.c", """                                    next_destination_str, errno, strerror(errno));
    }
  }
  LF_MUTEX_UNLOCK(&lf_outbound_socket_mutex);
  return result;
}

void lf_set_federation_id""", """                                    next_destination_str, errno, strerror(errno));
    }
  }
  if (message_type != MSG_TYPE_P2P_TAGGED_MESSAGE) {
    LF_MUTEX_UNLOCK(&lf_outbound_socket_mutex);
  }
  return result;
}

void lf_set_federation_id""")]
CONF = "fed-dec"
FLAGS = "-Wl,--wrap=write"
C = r"""#define NO_RTI
#include "lfprog.h"
#include <pthread.h>
#include <sys/socket.h>
ssize_t __real_write(int fd, const void* b, size_t n);
static int p[2];
/* a slow network */
ssize_t __wrap_write(int fd, const void* b, size_t n) {
  if (fd == p[0]) { if (n > 5) n = 5; usleep(1000); }
  return __real_write(fd, b, n);
}
static void setup(void) { mkself(); }
static void* sender(void* x) {
  unsigned char body[30];
  memset(body, (int)(intptr_t)x, sizeof body);
  lf_send_tagged_message(&envs_[0], 0, MSG_TYPE_P2P_TAGGED_MESSAGE, (unsigned short)(intptr_t)x, 1, "b", sizeof body, body);
  return NULL;
}
int main() {
  alarm(30);
  signal(SIGPIPE, SIG_IGN);
  lf_create_environments();
  environment_t* e = &envs_[0];
  init_fed_(e);
  e->current_tag = (tag_t){5, 0};
  e->stop_tag = FOREVER_TAG;
  socketpair(AF_UNIX, SOCK_STREAM, 0, p);
  _fed.sockets_for_outbound_p2p_connections[1] = p[0];
  pthread_t t[8];
  for (int i = 0; i < 8; i++) pthread_create(&t[i], NULL, sender, (void*)(intptr_t)(i + 1));
  for (int i = 0; i < 8; i++) pthread_join(t[i], NULL);
  for (int i = 0; i < 8; i++) {
    unsigned char m[21 + 30];
    CHECK(read_from_socket(p[1], sizeof m, m) == 0, "read");
    CHECK(m[0] == MSG_TYPE_P2P_TAGGED_MESSAGE && extract_uint32(m + 5) == 30, "no header where one should be");
    for (int k = 0; k < 30; k++) CHECK(m[21 + k] == m[1], "the body of port %d has a byte of port %d", m[1], m[21 + k]);
  }
  _exit(0);
}
"""
