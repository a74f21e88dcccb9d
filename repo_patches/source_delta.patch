From 076f15c2596c063dd57692d7cba8fe30cb91fdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:00 +0000
Subject: [PATCH 01/31] fix: advance the buffer after a partial send

---
 src/conn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index c6cb978..bd6db56 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -596,7 +596,6 @@ int conn_send(struct conn_handle *conn, const uint8_t *buff, size_t buff_len)
 
 	if (priv->fd != INVALID_SOCKET) {
 		while (buff_len > 0) {
-			/*! @TODO Bug? buff isn't changed */
 			ret = send(priv->fd, (const char *)buff, (socklen_t)buff_len,
 				   MSG_NOSIGNAL);
 
@@ -617,6 +616,7 @@ int conn_send(struct conn_handle *conn, const uint8_t *buff, size_t buff_len)
 			}
 
 			buff_len -= ret;
+			buff += ret;
 		}
 
 		ret = 0;
@@ -650,7 +650,6 @@ int conn_send_to(struct conn_handle *conn, const uint8_t *buff,
 
 	if (priv->fd != INVALID_SOCKET) {
 		while (buff_len > 0) {
-			/*! @TODO Bug? buff isn't changed */
 			ret = sendto(priv->fd, (const char *)buff,
 				     (socklen_t)buff_len, MSG_NOSIGNAL,
 				     (struct sockaddr *)&saddr,
@@ -672,6 +671,7 @@ int conn_send_to(struct conn_handle *conn, const uint8_t *buff,
 			}
 
 			buff_len -= ret;
+			buff += ret;
 		}
 
 		ret = 0;
-- 
2.43.0


From 7c5ee25cf23195ee966c78029b5366cc766fece6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 02/31] fix: do not treat an empty datagram as a shutdown

---
 src/conn.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index bd6db56..6defc25 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -546,8 +546,6 @@ int conn_recv_any(struct conn_handle *conn, uint8_t *buff, size_t buff_len,
 	struct conn_priv *priv = conn->priv;
 	int ret;
 
-	priv->remote_addr_len = sizeof(priv->remote_addr);
-
 	mutex_lock_shared(&priv->mutex);
 
 	if (priv->fd == INVALID_SOCKET) {
@@ -556,9 +554,17 @@ int conn_recv_any(struct conn_handle *conn, uint8_t *buff, size_t buff_len,
 		goto conn_recv_any_exit;
 	}
 
-	ret = recvfrom(priv->fd, (char *)buff, (socklen_t)buff_len, 0,
-		       (struct sockaddr *)&priv->remote_addr,
-		       &priv->remote_addr_len);
+	/* A datagram may legitimately be empty, which is not the same thing as
+	 * the socket having been shut down (which yields no sender address)
+	 */
+	do {
+		priv->remote_addr_len = sizeof(priv->remote_addr);
+
+		ret = recvfrom(priv->fd, (char *)buff, (socklen_t)buff_len, 0,
+			       (struct sockaddr *)&priv->remote_addr,
+			       &priv->remote_addr_len);
+	} while (ret == 0 && conn->type == CONN_TYPE_UDP &&
+		 priv->remote_addr_len > 0);
 
 	if (ret == 0) {
 		ret = -EPIPE;
-- 
2.43.0


From e177a78e699a24d25311db17d36d983d1d89c373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:04 +0000
Subject: [PATCH 03/31] fix: close an existing TCP connection before opening
 another

---
 src/proxy_conn.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index 8476133..7a81aba 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -725,6 +725,12 @@ static int process_tcp_open_message(struct proxy_conn_handle *pc,
 		return -EINVAL;
 	}
 
+	/* Only one TCP connection can be open at a time, so close any existing
+	 * connection and let the forwarder finish with it first
+	 */
+	conn_close(&priv->conn_tcp);
+	worker_wait_idle(&priv->worker_tcp);
+
 	/* Attempt to connect */
 	ret = conn_connect(&priv->conn_tcp, (const char *)addr, "5200");
 	if (ret < 0) {
-- 
2.43.0


From f3dd969eaf3e27a0dbe25a8bf821f9e045118556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:07 +0000
Subject: [PATCH 04/31] fix: send the TCP status before any data from the
 connection

---
 src/proxy_conn.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index 7a81aba..5e30e26 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -733,6 +733,10 @@ static int process_tcp_open_message(struct proxy_conn_handle *pc,
 
 	/* Attempt to connect */
 	ret = conn_connect(&priv->conn_tcp, (const char *)addr, "5200");
+
+	/* The client must see the status before any data from the connection */
+	mutex_lock(&priv->mutex_client_send);
+
 	if (ret < 0) {
 		proxy_log(pc->ph, LOG_LEVEL_WARN,
 			  "Failed to open TCP connection for client '%s' (%d): %s\n",
@@ -756,8 +760,6 @@ static int process_tcp_open_message(struct proxy_conn_handle *pc,
 		  "Sending TCP_STATUS message (%d) to client '%s'\n",
 		  ret, priv->callsign);
 
-	mutex_lock(&priv->mutex_client_send);
-
 	ret = conn_send(priv->conn_client, status_buf,
 			sizeof(*status_msg) + status_msg->size);
 
-- 
2.43.0


From dc0bdb08b50b1f1b37b4aeeeb9faf871220ec8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 05/31] fix: let the TCP forwarder finish before reporting a
 failed send

---
 src/proxy_conn.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index 5e30e26..847ee90 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -696,8 +696,11 @@ static int process_tcp_data_message(struct proxy_conn_handle *pc,
 		}
 	}
 
-	if (tcp_ret != 0)
+	if (tcp_ret != 0) {
+		/* The forwarder may not be done with the connection yet */
+		worker_wait_idle(&priv->worker_tcp);
 		send_tcp_close(pc);
+	}
 
 	return 0;
 }
-- 
2.43.0


From 1d54082cad8f21c3a381ccb842db2d1e879eddc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 06/31] fix: do not let a stalled remote host block dropping a
 client

---
 src/conn.c       | 8 ++++++--
 src/proxy_conn.c | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 6defc25..0666a38 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -398,7 +398,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
-		goto conn_connect_free_early;
+		goto conn_connect_free;
 	}
 
 #ifdef __APPLE__
@@ -406,7 +406,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
-		goto conn_connect_free_early;
+		goto conn_connect_free;
 	}
 #endif
 
@@ -435,12 +435,16 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 	return 0;
 
 conn_connect_free:
+	mutex_lock(&priv->mutex);
+
 	shutdown(priv->sock_fd, SHUT_RDWR);
 
 	closesocket(priv->sock_fd);
 
 	priv->sock_fd = INVALID_SOCKET;
 
+	mutex_unlock(&priv->mutex);
+
 conn_connect_free_early:
 	if (res_remote != NULL)
 		freeaddrinfo(res_remote);
diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index 847ee90..bdfbae3 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -864,8 +864,11 @@ void proxy_conn_drop(struct proxy_conn_handle *pc)
 
 	mutex_lock_shared(&priv->mutex_client);
 
-	if (priv->conn_client != NULL)
+	if (priv->conn_client != NULL) {
 		conn_drop(priv->conn_client);
+		/* Don't let a stalled remote host delay the client */
+		conn_shutdown(&priv->conn_tcp);
+	}
 
 	mutex_unlock_shared(&priv->mutex_client);
 }
-- 
2.43.0


From 489b418acc413b727fa5da546f2603472e5dd877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 07/31] fix: refuse to open the proxy without a password

---
 src/proxy.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index 64e4c53..c28306f 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -673,6 +673,13 @@ int proxy_open(struct proxy_handle *ph)
 	if (ret < 0)
 		goto proxy_open_exit;
 
+	if (ph->conf.password == NULL) {
+		proxy_log(ph, LOG_LEVEL_FATAL,
+			  "A password must be specified in the configuration\n");
+		ret = -EINVAL;
+		goto proxy_open_exit;
+	}
+
 	if (ph->conf.calls_allowed != NULL) {
 		if (priv->re_calls_allowed == NULL) {
 			priv->re_calls_allowed = calloc(1,
-- 
2.43.0


From e9d16bf9373692be5ce5746279095fdef859e5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 08/31] fix: report a failure to initialize a proxy connection

---
 src/proxy.c      | 2 ++
 src/proxy_conn.c | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index c28306f..17fc0c9 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -772,6 +772,8 @@ int proxy_open(struct proxy_handle *ph)
 				  "Failed to initialize proxy connection #%d (%d): %s\n",
 				  i, -ret, strerror(-ret));
 
+			priv->idle_clients_head = NULL;
+			priv->idle_clients_tail_ptr = NULL;
 			for (i--; i >= 0; i--)
 				proxy_conn_free(&priv->clients[i]);
 
diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index bdfbae3..c866ef0 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -997,7 +997,7 @@ proxy_conn_init_exit:
 	free(pc->priv);
 	pc->priv = NULL;
 
-	return 0;
+	return ret;
 }
 
 int proxy_conn_in_use(struct proxy_conn_handle *pc)
-- 
2.43.0


From 57381c513e66b70a11f1cb7a1f3f99e9bf6431ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:04 +0000
Subject: [PATCH 09/31] fix: drop clients which have not been given a slot yet

---
 src/proxy.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index 17fc0c9..ad607ec 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -904,6 +904,16 @@ void proxy_drop(struct proxy_handle *ph)
 
 	for (i = 0; i < priv->num_clients; i++)
 		proxy_conn_drop(&priv->clients[i]);
+
+	/* Not every client has been given a slot yet */
+	for (i = 0; i < priv->num_clients; i++) {
+		struct proxy_worker *pw = &priv->client_workers[i];
+
+		mutex_lock_shared(&pw->mutex);
+		if (pw->conn_client != NULL)
+			conn_drop(pw->conn_client);
+		mutex_unlock_shared(&pw->mutex);
+	}
 }
 
 void proxy_shutdown(struct proxy_handle *ph)
-- 
2.43.0


From d269cfd16846a83437fe81ebda56f44f2f49c991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:06 +0000
Subject: [PATCH 10/31] fix: do not reconnect a client to a slot which is not
 in the pool

---
 src/proxy.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index ad607ec..8622928 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -374,11 +374,14 @@ static void proxy_worker_func(struct worker_handle *wh)
 	}
 
 	pc = priv->clients_by_call[hash];
-	/* First, check for a reconnect */
+	/* First, check for a reconnect (to a slot which is in the pool) */
 	while (pc != NULL) {
-		ret = proxy_conn_accept(pc, pw->conn_client, pw->callsign, 1);
-		if (ret != -EBUSY)
-			break;
+		if (pc->prev_ptr != NULL) {
+			ret = proxy_conn_accept(pc, pw->conn_client,
+						pw->callsign, 1);
+			if (ret != -EBUSY)
+				break;
+		}
 		pc = pc->next_by_call;
 	}
 	/* Fall back on the oldest available slot */
@@ -400,6 +403,7 @@ static void proxy_worker_func(struct worker_handle *wh)
 		priv->idle_clients_tail_ptr = pc->prev_ptr;
 	else
 		pc->next->prev_ptr = pc->prev_ptr;
+	pc->prev_ptr = NULL;
 
 	/* Remove the slot from the hash map */
 	if (pc->prev_by_call_ptr != NULL) {
-- 
2.43.0


From 468088ace9c6818ee5aee76754692667f9726fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:09 +0000
Subject: [PATCH 11/31] fix: forget the idle workers only after they are gone

---
 src/proxy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index 8622928..9fc9fc6 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -874,9 +874,9 @@ void proxy_close(struct proxy_handle *ph)
 
 	proxy_log(ph, LOG_LEVEL_DEBUG, "Closing client connections...\n");
 
-	priv->idle_workers_head = NULL;
 	for (i = 0; i < priv->num_clients; i++)
 		proxy_worker_free(&priv->client_workers[i]);
+	priv->idle_workers_head = NULL;
 
 	memset(priv->clients_by_call, 0x0, sizeof(priv->clients_by_call));
 	priv->idle_clients_head = NULL;
-- 
2.43.0


From bb61fd0d51f3053be0937fa4b9b64bf6dcb3f244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:12 +0000
Subject: [PATCH 12/31] fix: registration without a comment or with a long name

---
 src/registration.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/registration.c b/src/registration.c
index df6d7ce..cba9def 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -325,12 +325,15 @@ int registration_service_start(struct registration_service_handle *rs,
 	priv->public = strcmp(conf->password, "PUBLIC") == 0 ? 'Y' : 'N';
 
 	priv->reg_name = conf->reg_name;
-	priv->reg_comment = conf->reg_comment;
+	priv->reg_comment = conf->reg_comment == NULL ?
+			    "" : conf->reg_comment;
 
-	if (priv->reg_suffix != NULL)
+	if (priv->reg_suffix != NULL) {
 		free((void *)priv->reg_suffix);
-	reg_suffix = malloc(strlen(public_addr) + (2 * DIGEST_LEN) +
-			    sizeof(protocol_version) + 18);
+		priv->reg_suffix = NULL;
+	}
+	reg_suffix = malloc(strlen(priv->reg_name) + strlen(public_addr) +
+			    (2 * DIGEST_LEN) + sizeof(protocol_version) + 18);
 	if (reg_suffix == NULL) {
 		ret = -ENOMEM;
 		goto registration_service_start_end;
-- 
2.43.0


From 950f8c4f9ddec6de59b38f887f68c70b5d60fc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:14 +0000
Subject: [PATCH 13/31] fix: keep the reported slot count up to date

---
 src/proxy.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index 9fc9fc6..88a2081 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -356,6 +356,8 @@ static void proxy_worker_func(struct worker_handle *wh)
 		priv->idle_workers_head = pw;
 		mutex_unlock(&priv->idle_workers_mutex);
 
+		proxy_update_registration(pw->ph);
+
 		return;
 	}
 
@@ -1121,12 +1123,11 @@ void proxy_update_registration(struct proxy_handle *ph)
 	mutex_lock_shared(&priv->usable_clients_mutex);
 	slots_total = priv->usable_clients;
 	slots_used = priv->num_clients;
-	mutex_unlock_shared(&priv->usable_clients_mutex);
 
-	mutex_lock_shared(&priv->idle_workers_mutex);
+	/* Updates must be reported in the order in which they are counted */
+	mutex_lock(&priv->idle_workers_mutex);
 	for (pw = priv->idle_workers_head; pw != NULL; pw = pw->next)
 		slots_used--;
-	mutex_unlock_shared(&priv->idle_workers_mutex);
 
 	proxy_log(ph, LOG_LEVEL_DEBUG,
 		  "Sending update to registrar (%d/%d)\n",
@@ -1134,4 +1135,6 @@ void proxy_update_registration(struct proxy_handle *ph)
 
 	registration_service_update(&priv->reg_service, slots_used,
 				    slots_total);
+	mutex_unlock(&priv->idle_workers_mutex);
+	mutex_unlock_shared(&priv->usable_clients_mutex);
 }
-- 
2.43.0


From cb4304e909495e7b1f50fb9a862d65948fb73d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 14/31] fix: report the status to the registrar after a restart

---
 src/proxy.c        |  3 ++-
 src/registration.c | 15 +++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index 88a2081..13653f4 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -1089,7 +1089,6 @@ int proxy_start(struct proxy_handle *ph)
 	priv->usable_clients = priv->num_clients;
 	mutex_unlock(&priv->usable_clients_mutex);
 
-	proxy_update_registration(ph);
 	ret = registration_service_start(&priv->reg_service, &ph->conf);
 	if (ret < 0) {
 		proxy_log(ph, LOG_LEVEL_FATAL,
@@ -1098,6 +1097,8 @@ int proxy_start(struct proxy_handle *ph)
 		goto proxy_start_exit;
 	}
 
+	proxy_update_registration(ph);
+
 	return 0;
 
 proxy_start_exit:
diff --git a/src/registration.c b/src/registration.c
index cba9def..ac6b191 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -317,11 +317,17 @@ int registration_service_start(struct registration_service_handle *rs,
 				   "" : conf->public_addr;
 	int ret;
 
-	if (conf->reg_name == NULL)
-		return 0;
-
 	mutex_lock(&priv->mutex);
 
+	if (priv->status == REGISTRATION_STATUS_OFF)
+		priv->status = REGISTRATION_STATUS_UNKNOWN;
+
+	if (conf->reg_name == NULL) {
+		mutex_unlock(&priv->mutex);
+
+		return 0;
+	}
+
 	priv->public = strcmp(conf->password, "PUBLIC") == 0 ? 'Y' : 'N';
 
 	priv->reg_name = conf->reg_name;
@@ -368,9 +374,6 @@ int registration_service_start(struct registration_service_handle *rs,
 	if (ret < 0)
 		goto registration_service_start_end;
 
-	if (priv->status == REGISTRATION_STATUS_OFF)
-		priv->status = REGISTRATION_STATUS_UNKNOWN;
-
 registration_service_start_end:
 	mutex_unlock(&priv->mutex);
 
-- 
2.43.0


From d4f45604ef8b4712743127c701cff778558bd78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:19 +0000
Subject: [PATCH 15/31] fix: do not wait forever for a response from the
 registrar

---
 src/registration.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/registration.c b/src/registration.c
index ac6b191..ea1da88 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -65,6 +65,9 @@
 /*! Update (at least) every 10 minutes */
 #define UPDATE_INTERVAL 600000
 
+/*! Wait (at most) 30 seconds for a response from the registrar */
+#define RESPONSE_TIMEOUT 30000
+
 /*!
  * @brief Possible statuses of a proxy server to report to registrar
  */
@@ -227,6 +230,11 @@ static int send_report(struct registration_service_handle *rs,
 	if (ret < 0)
 		goto registration_update_exit;
 
+	/* An unresponsive registrar must not delay a shutdown indefinitely */
+	ret = conn_set_timeout(&conn, RESPONSE_TIMEOUT);
+	if (ret < 0)
+		goto registration_update_exit;
+
 	ret = conn_send(&conn, (uint8_t *)message_header, header_length);
 	if (ret < 0)
 		goto registration_update_exit;
-- 
2.43.0


From 7f1eea244ac1a193a192fc603a3aef9f42b5cea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:21 +0000
Subject: [PATCH 16/31] fix: parsing of AdditionalExternalBindAddresses

---
 src/conf.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index e6058ba..a1018d5 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -378,16 +378,20 @@ static int conf_parse_pair(const char *key, size_t key_len,
 		if (strncmp(key, "AdditionalExternalBindAddresses", key_len) == 0) {
 			size_t i, j;
 
-			if (conf->bind_addr_ext_add != NULL)
-				free(conf->bind_addr_ext_add);
+			if (conf->bind_addr_ext_add != NULL) {
+				for (i = 0; i < conf->bind_addr_ext_add_len; i++)
+					free(conf->bind_addr_ext_add[i]);
 
-			if (val_len == 0) {
+				free(conf->bind_addr_ext_add);
 				conf->bind_addr_ext_add = NULL;
-				conf->bind_addr_ext_add_len = 0;
-				break;
 			}
 
-			for (i = 1; i < val_len; i++)
+			conf->bind_addr_ext_add_len = 0;
+
+			if (val_len == 0)
+				break;
+
+			for (i = 0; i < val_len; i++)
 				if (val[i] == ',')
 					conf->bind_addr_ext_add_len++;
 
@@ -396,8 +400,11 @@ static int conf_parse_pair(const char *key, size_t key_len,
 			conf->bind_addr_ext_add = calloc(
 				conf->bind_addr_ext_add_len,
 				sizeof(*conf->bind_addr_ext_add));
-			if (conf->bind_addr_ext_add == NULL)
+			if (conf->bind_addr_ext_add == NULL) {
+				conf->bind_addr_ext_add_len = 0;
+
 				return -ENOMEM;
+			}
 
 			for (i = 0, j = 0; i < conf->bind_addr_ext_add_len; i++) {
 				size_t k = j;
-- 
2.43.0


From 68dd19afda3a6d1252ceb76c7326688b95022baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 17/31] fix: refuse out of range numbers in the configuration

---
 src/conf.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index a1018d5..d3c81b9 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -203,13 +203,18 @@ static int conf_parse_pair(const char *key, size_t key_len,
 	switch (key_len) {
 	case 4:
 		if (strncmp(key, "Port", key_len) == 0) {
-			if (sscanf(val, "%hu%1s", &conf->port, dummy) != 1) {
+			long port;
+
+			if (sscanf(val, "%ld%1s", &port, dummy) != 1 ||
+			    port < 0 || port > 65535) {
 				log_printf(log, LOG_LEVEL_ERROR,
 					   "Invalid configuration value for 'Port': '%.*s'\n",
 					   (int)val_len, val);
 
 				return -EINVAL;
 			}
+
+			conf->port = (uint16_t)port;
 		}
 
 		break;
@@ -330,13 +335,18 @@ static int conf_parse_pair(const char *key, size_t key_len,
 		break;
 	case 17:
 		if (strncmp(key, "ConnectionTimeout", key_len) == 0) {
-			if (sscanf(val, "%u%1s", &conf->connection_timeout, dummy) != 1) {
+			long long timeout;
+
+			if (sscanf(val, "%lld%1s", &timeout, dummy) != 1 ||
+			    timeout < 0 || timeout > UINT32_MAX) {
 				log_printf(log, LOG_LEVEL_ERROR,
 					   "Invalid configuration value for 'ConnectionTimeout': '%.*s'\n",
 					   (int)val_len, val);
 
 				return -EINVAL;
 			}
+
+			conf->connection_timeout = (uint32_t)timeout;
 		}
 
 		break;
-- 
2.43.0


From 0e3f3358068ddf8cf42fea1d9302e9916ef98ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 18/31] fix: report a failure to read the configuration

---
 src/conf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index d3c81b9..0cd5cc4 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -457,7 +457,7 @@ static int conf_parse_stream(FILE *stream, struct proxy_conf *conf,
 	size_t line_len = 0;
 	int ret = 0;
 
-	while (conf_readline(&line, &line_len, stream) > 0) {
+	while ((ret = conf_readline(&line, &line_len, stream)) > 0) {
 		ret = conf_parse_line(line, conf, log);
 
 		free(line);
@@ -469,7 +469,7 @@ static int conf_parse_stream(FILE *stream, struct proxy_conf *conf,
 
 	free(line);
 
-	return 0;
+	return ret;
 }
 
 int conf_init(struct proxy_conf *conf)
-- 
2.43.0


From 8eba38a024a96505c062c26f37480f1226d57b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 19/31] fix: close the previous log medium

---
 src/log.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/log.c b/src/log.c
index 1616307..4588618 100644
--- a/src/log.c
+++ b/src/log.c
@@ -203,13 +203,14 @@ int log_select_medium(struct log_handle *log, enum LOG_MEDIUM medium,
 		      const char *target)
 {
 	struct log_priv *priv = log->priv;
+	enum LOG_MEDIUM old_medium = log->medium;
 	int ret = 0;
 
 	/* Open the new medium */
 	switch (medium) {
 	case LOG_MEDIUM_NONE:
 		log->medium = LOG_MEDIUM_NONE;
-		switch (log->medium) {
+		switch (old_medium) {
 		case LOG_MEDIUM_FILE:
 			if (priv->medium_file.fp != NULL) {
 				fclose(priv->medium_file.fp);
@@ -227,12 +228,15 @@ int log_select_medium(struct log_handle *log, enum LOG_MEDIUM medium,
 				priv->medium_eventlog.handle = NULL;
 			}
 
+			break;
+		default:
 			break;
 		}
+
 		break;
 	case LOG_MEDIUM_STDOUT:
 		log->medium = LOG_MEDIUM_STDOUT;
-		switch (log->medium) {
+		switch (old_medium) {
 		case LOG_MEDIUM_FILE:
 			if (priv->medium_file.fp != NULL) {
 				fclose(priv->medium_file.fp);
-- 
2.43.0


From 51241e90eea9ba1ea69dc597f2f01ba651be061b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:31 +0000
Subject: [PATCH 20/31] fix: byte order of the reported remote port

---
 src/conn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 0666a38..c44726b 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -815,7 +815,7 @@ void conn_get_remote_addr(const struct conn_handle *conn, char dest[54])
 		inet_ntop(addr->sin_family, &addr->sin_addr.s_addr, dest, 46);
 		dest += strlen(dest);
 		dest[0] = ':';
-		conn_port_to_str(addr->sin_port, dest + 1);
+		conn_port_to_str(ntohs(addr->sin_port), dest + 1);
 		break;
 	case AF_INET6:
 		dest[0] = '[';
@@ -824,7 +824,7 @@ void conn_get_remote_addr(const struct conn_handle *conn, char dest[54])
 		dest += strlen(dest);
 		dest[0] = ']';
 		dest[1] = ':';
-		conn_port_to_str(addr6->sin6_port, dest + 2);
+		conn_port_to_str(ntohs(addr6->sin6_port), dest + 2);
 		break;
 	default:
 		strcpy(dest, "(unknown)");
-- 
2.43.0


From 6bcf72d15dd21ba6d5d7b4174f6521e2d7e7e806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 21/31] fix: respect shared lock holders after waiting on a
 condition

---
 src/mutex_posix.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/mutex_posix.c b/src/mutex_posix.c
index 3469e69..8d2e847 100644
--- a/src/mutex_posix.c
+++ b/src/mutex_posix.c
@@ -231,8 +231,15 @@ int condvar_wait(struct condvar_handle *condvar, struct mutex_handle *mutex)
 {
 	struct condvar_priv *priv = condvar->priv;
 	struct mutex_priv *mpriv = mutex->priv;
+	int ret;
+
+	ret = pthread_cond_wait(&priv->cond, &mpriv->lock);
+
+	/* There may be holders of the shared lock now */
+	while (mpriv->readers > 0)
+		pthread_cond_wait(&mpriv->cond, &mpriv->lock);
 
-	return -pthread_cond_wait(&priv->cond, &mpriv->lock);
+	return -ret;
 }
 
 int condvar_wait_time(struct condvar_handle *condvar,
@@ -249,6 +256,11 @@ int condvar_wait_time(struct condvar_handle *condvar,
 	abstime.tv_nsec %= 1000000000;
 
 	ret = pthread_cond_timedwait(&priv->cond, &mpriv->lock, &abstime);
+
+	/* There may be holders of the shared lock now */
+	while (mpriv->readers > 0)
+		pthread_cond_wait(&mpriv->cond, &mpriv->lock);
+
 	return ret == ETIMEDOUT ? 1 : -ret;
 }
 
-- 
2.43.0


From 199bea601b7dba63b91831fb5d512f939645b3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 22/31] fix: report an error while reading the configuration

---
 src/conf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/conf.c b/src/conf.c
index 0cd5cc4..756caaf 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -141,6 +141,9 @@ static int conf_readline(char **lineptr, size_t *n, FILE *stream)
 			break;
 	}
 
+	if (temp == EOF && ferror(stream))
+		return -EIO;
+
 	(*lineptr)[so_far] = '\0';
 
 	return (int)so_far;
-- 
2.43.0


From 663c09a13ac456dc063ea4a17aa4e8caca819ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 23/31] fix: stop what was started when starting fails

---
 src/proxy.c      | 4 ++++
 src/proxy_conn.c | 6 ++++++
 src/worker.c     | 2 ++
 3 files changed, 12 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index 13653f4..e427e9c 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -1102,6 +1102,10 @@ int proxy_start(struct proxy_handle *ph)
 	return 0;
 
 proxy_start_exit:
+	mutex_lock(&priv->usable_clients_mutex);
+	priv->usable_clients = 0;
+	mutex_unlock(&priv->usable_clients_mutex);
+
 	for (i--; i >= 0; i--)
 		worker_join(&priv->client_workers[i].worker);
 
diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index c866ef0..91fea9d 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -1060,9 +1060,15 @@ int proxy_conn_start(struct proxy_conn_handle *pc)
 	if (ret < 0)
 		goto proxy_conn_start_exit;
 
+	mutex_unlock_shared(&priv->mutex_client);
+
+	return 0;
+
 proxy_conn_start_exit:
 	mutex_unlock_shared(&priv->mutex_client);
 
+	proxy_conn_stop(pc);
+
 	return ret;
 }
 
diff --git a/src/worker.c b/src/worker.c
index 5ecf36d..a4f20b0 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -260,6 +260,8 @@ int worker_start(struct worker_handle *wh)
 	if (priv->state <= WORKER_STOPPED) {
 		priv->state = WORKER_STARTING;
 		ret = thread_start(&priv->thread);
+		if (ret < 0)
+			priv->state = WORKER_STOPPED;
 	}
 
 	mutex_unlock(&priv->mutex);
-- 
2.43.0


From 8be961f5d67b79dd3c35295ce64efa9da61b024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:00 +0000
Subject: [PATCH 24/31] fix: close the socket when listening fails

---
 src/conn.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index c44726b..d882ba0 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -235,34 +235,30 @@ int conn_listen(struct conn_handle *conn)
 	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_REUSEADDR,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
-		/*! @TODO Close priv->sock_fd */
 		ret = SOCK_ERRNO;
-		goto conn_listen_free;
+		goto conn_listen_close;
 	}
 
 #ifdef __APPLE__
 	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_NOSIGPIPE,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
-		/*! @TODO Close priv->sock_fd */
 		ret = SOCK_ERRNO;
-		goto conn_listen_free;
+		goto conn_listen_close;
 	}
 #endif
 
 	ret = bind(priv->sock_fd, res->ai_addr, (socklen_t)res->ai_addrlen);
 	if (ret == SOCKET_ERROR) {
-		/*! @TODO Close priv->sock_fd */
 		ret = SOCK_ERRNO;
-		goto conn_listen_free;
+		goto conn_listen_close;
 	}
 
 	if (conn->type == CONN_TYPE_TCP) {
 		ret = listen(priv->sock_fd, 0);
 		if (ret == SOCKET_ERROR) {
-			/*! @TODO Close priv->sock_fd */
 			ret = SOCK_ERRNO;
-			goto conn_listen_free;
+			goto conn_listen_close;
 		}
 	}
 
@@ -272,6 +268,19 @@ int conn_listen(struct conn_handle *conn)
 
 	mutex_unlock(&priv->mutex);
 
+	freeaddrinfo(res);
+
+	return ret;
+
+conn_listen_close:
+	mutex_lock(&priv->mutex);
+
+	closesocket(priv->sock_fd);
+
+	priv->sock_fd = INVALID_SOCKET;
+
+	mutex_unlock(&priv->mutex);
+
 conn_listen_free:
 	freeaddrinfo(res);
 
-- 
2.43.0


From 1557034deb43021c8531a0e2a04ee9e42cee45f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 25/31] fix: leave nothing behind when opening the proxy fails

---
 src/proxy.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index e427e9c..dfda83e 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -665,8 +665,10 @@ int proxy_open(struct proxy_handle *ph)
 	priv->num_clients = 1 + ph->conf.bind_addr_ext_add_len;
 
 	priv->clients = calloc(priv->num_clients, sizeof(*priv->clients));
-	if (priv->clients == NULL)
+	if (priv->clients == NULL) {
+		priv->num_clients = 0;
 		return -ENOMEM;
+	}
 
 	priv->client_workers = calloc(priv->num_clients,
 				      sizeof(struct proxy_worker));
@@ -795,6 +797,7 @@ int proxy_open(struct proxy_handle *ph)
 				  "Failed to initialize proxy client worker #%d (%d): %s\n",
 				  i, -ret, strerror(-ret));
 
+			priv->idle_workers_head = NULL;
 			for (i--; i >= 0; i--)
 				proxy_worker_free(&priv->client_workers[i]);
 
@@ -846,6 +849,12 @@ proxy_open_exit:
 		priv->re_calls_allowed = NULL;
 	}
 
+	if (priv->re_calls_denied != NULL) {
+		regex_free(priv->re_calls_denied);
+		free(priv->re_calls_denied);
+		priv->re_calls_denied = NULL;
+	}
+
 	log_close(&priv->log);
 
 	free(priv->client_workers);
-- 
2.43.0


From 980b8c8eef0f820ecca0cb12fd97f2ba4db64a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 26/31] fix: check for a failed allocation during authorization

---
 src/proxy.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index dfda83e..d6b5751 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -1049,6 +1049,9 @@ int get_password_response(uint32_t nonce, const char *password,
 	uint8_t *pass_with_nonce = malloc(pass_with_nonce_len);
 	char *iter = (char *)pass_with_nonce;
 
+	if (pass_with_nonce == NULL)
+		return -ENOMEM;
+
 	while (*password != '\0') {
 		if (*password >= 97 && *password <= 122)
 			*iter = *password - 32;
-- 
2.43.0


From 3eb1d80ef2a980f7893a2babfbfaa1cc9a5940d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 27/31] fix: clean up after a failed initialization

---
 src/proxy.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index d6b5751..1435872 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -603,7 +603,16 @@ int proxy_init(struct proxy_handle *ph)
 	return 0;
 
 proxy_init_exit:
-	proxy_free(ph);
+	mutex_free(&priv->idle_workers_mutex);
+	mutex_free(&priv->idle_clients_mutex);
+	mutex_free(&priv->usable_clients_mutex);
+	registration_service_free(&priv->reg_service);
+	conn_free(&priv->conn_listen);
+	conf_free(&ph->conf);
+	log_free(&priv->log);
+	rand_free();
+	free(ph->priv);
+	ph->priv = NULL;
 
 	return ret;
 }
-- 
2.43.0


From e4d49fb87ff0c92d06508363cbd72707da9105f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 28/31] fix: handle signals in the context of the main loop

---
 src/proxyd.c | 80 ++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 62 insertions(+), 18 deletions(-)

diff --git a/src/proxyd.c b/src/proxyd.c
index bf83790..430efbc 100644
--- a/src/proxyd.c
+++ b/src/proxyd.c
@@ -56,6 +56,7 @@
 #else
 #  include <signal.h>
 #  include <sys/stat.h>
+#  include <unistd.h>
 #endif
 
 #include "openelp/openelp.h"
@@ -108,8 +109,19 @@ struct proxy_opts {
 /*! Global proxy handle */
 static struct proxy_handle ph;
 
+#ifdef _WIN32
 /*! Program termination indicator */
 static uint8_t sentinel;
+#else
+/*! Program termination indicator */
+static volatile sig_atomic_t sentinel;
+
+/*! Proxy shutdown request indicator */
+static volatile sig_atomic_t shutdown_requested;
+
+/*! Boolean value indicating if the request to shut down has been noticed */
+static volatile sig_atomic_t shutdown_noticed;
+#endif
 
 #ifdef _WIN32
 /*!
@@ -125,10 +137,8 @@ static BOOL WINAPI graceful_shutdown(DWORD ctrl_type);
  * @brief Callback which is used to shut down the EchoLink proxy
  *
  * @param[in] signum Signal number
- * @param[in] info Extra signal information
- * @param[in] ptr Signal handler context
  */
-static void graceful_shutdown(int signum, siginfo_t *info, void *ptr);
+static void graceful_shutdown(int signum);
 #endif
 
 /*!
@@ -181,18 +191,19 @@ static BOOL WINAPI graceful_shutdown(DWORD ctrl_type)
 	return FALSE;
 }
 #else
-/*! @TODO Make this async-signal-safe */
-static void graceful_shutdown(int signum, siginfo_t *info, void *ptr)
+static void graceful_shutdown(int signum)
 {
-	proxy_log(&ph, LOG_LEVEL_INFO, "Caught signal\n");
-	(void)info;
-	(void)ptr;
-
 	if (signum == SIGTERM || signum == SIGINT)
 		sentinel = 1;
 
 	if (signum == SIGTERM || signum == SIGINT || signum == SIGUSR1)
-		proxy_shutdown(&ph);
+		shutdown_requested = 1;
+
+	/* The signal may have arrived right before a blocking call, so keep
+	 * interrupting the main thread until it notices
+	 */
+	if (!shutdown_noticed)
+		alarm(1);
 }
 #endif
 
@@ -202,6 +213,7 @@ int main(int argc, const char * const argv[])
 
 #ifndef _WIN32
 	struct sigaction sigact;
+	sigset_t sigset;
 #endif
 	int ret;
 
@@ -221,13 +233,23 @@ int main(int argc, const char * const argv[])
 	}
 
 #ifndef _WIN32
-	/* Handle SIGINT/SIGTERM */
-	sigact.sa_sigaction = graceful_shutdown;
-	sigact.sa_flags |= SA_SIGINFO;
+	/* Handle SIGINT/SIGTERM, but only in the main thread, and only once
+	 * everything has been started
+	 */
+	sigemptyset(&sigset);
+	sigaddset(&sigset, SIGINT);
+	sigaddset(&sigset, SIGTERM);
+	sigaddset(&sigset, SIGUSR1);
+	sigaddset(&sigset, SIGALRM);
+	sigprocmask(SIG_BLOCK, &sigset, NULL);
+
+	sigact.sa_handler = graceful_shutdown;
+	sigact.sa_mask = sigset;
 
 	sigaction(SIGINT, &sigact, NULL);
 	sigaction(SIGTERM, &sigact, NULL);
 	sigaction(SIGUSR1, &sigact, NULL);
+	sigaction(SIGALRM, &sigact, NULL);
 #else
 	if (!SetConsoleCtrlHandler(graceful_shutdown, TRUE))
 		fprintf(stderr, "Failed to set signal handler (%d)\n",
@@ -383,8 +405,29 @@ int main(int argc, const char * const argv[])
 
 	proxy_log(&ph, LOG_LEVEL_INFO, "Ready.\n");
 
+#ifndef _WIN32
+	sigprocmask(SIG_UNBLOCK, &sigset, NULL);
+
+#endif
 	/* Main dispatch loop */
 	while (ret == 0 && sentinel == 0) {
+#ifndef _WIN32
+		if (shutdown_requested) {
+			if (!shutdown_noticed) {
+				shutdown_noticed = 1;
+
+				proxy_log(&ph, LOG_LEVEL_INFO,
+					  "Caught signal\n");
+				proxy_shutdown(&ph);
+			}
+
+			/*! @TODO Something better than a busy loop */
+			usleep(50000);
+
+			continue;
+		}
+
+#endif
 		proxy_log(&ph, LOG_LEVEL_DEBUG,
 			  "Starting a processing run...\n");
 		ret = proxy_process(&ph);
@@ -393,14 +436,11 @@ int main(int argc, const char * const argv[])
 			case -EINTR:
 				ret = 0;
 
-				/*! @TODO Something better than a busy loop */
-				while (!sentinel) {
 #ifdef _WIN32
+				/*! @TODO Something better than a busy loop */
+				while (!sentinel)
 					Sleep(50);
-#else
-					usleep(50000);
 #endif
-				}
 
 				break;
 			default:
@@ -412,6 +452,10 @@ int main(int argc, const char * const argv[])
 		}
 	}
 
+#ifndef _WIN32
+	shutdown_noticed = 1;
+
+#endif
 	proxy_log(&ph, LOG_LEVEL_INFO, "Shutting down...\n");
 
 proxyd_exit:
-- 
2.43.0


From d10d0ef4fe7c1c543b5e06a3e868aed7327afebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 29/31] fix: keep running when accepting a client fails for now

---
 src/proxyd.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/proxyd.c b/src/proxyd.c
index 430efbc..56df901 100644
--- a/src/proxyd.c
+++ b/src/proxyd.c
@@ -442,6 +442,25 @@ int main(int argc, const char * const argv[])
 					Sleep(50);
 #endif
 
+				break;
+			case -ECONNABORTED:
+			case -EMFILE:
+			case -ENFILE:
+			case -ENOBUFS:
+			case -ENOMEM:
+			case -EPROTO:
+				/* A later client may be more fortunate */
+				proxy_log(&ph, LOG_LEVEL_ERROR,
+					  "Failed to accept a client (%d): %s\n",
+					  -ret, strerror(-ret));
+				ret = 0;
+
+#ifdef _WIN32
+				Sleep(50);
+#else
+				usleep(50000);
+#endif
+
 				break;
 			default:
 				proxy_log(&ph, LOG_LEVEL_FATAL,
-- 
2.43.0


From 654e358d0cfd98ac7ec434c5648a8e84ccf7cab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 30/31] fix: do not let connections use the standard
 descriptors

---
 src/proxyd.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/proxyd.c b/src/proxyd.c
index 56df901..db77ef0 100644
--- a/src/proxyd.c
+++ b/src/proxyd.c
@@ -54,6 +54,7 @@
 #  include <io.h>
 #  include <windows.h>
 #else
+#  include <fcntl.h>
 #  include <signal.h>
 #  include <sys/stat.h>
 #  include <unistd.h>
@@ -298,6 +299,7 @@ int main(int argc, const char * const argv[])
 #ifndef _WIN32
 	/* Daemonize */
 	if (!opts.foreground) {
+		int null_fd;
 		pid_t pid;
 		pid_t sid;
 
@@ -354,9 +356,23 @@ int main(int argc, const char * const argv[])
 			goto proxyd_exit;
 		}
 
-		close(STDIN_FILENO);
-		close(STDOUT_FILENO);
-		close(STDERR_FILENO);
+		/* Log messages may still be written to these, so don't let
+		 * the next connection use the descriptors
+		 */
+		null_fd = open("/dev/null", O_RDWR);
+		if (null_fd < 0) {
+			proxy_log(&ph, LOG_LEVEL_FATAL,
+				  "Failed to open null device (%d): %s\n",
+				  errno, strerror(errno));
+			ret = errno;
+			goto proxyd_exit;
+		}
+
+		dup2(null_fd, STDIN_FILENO);
+		dup2(null_fd, STDOUT_FILENO);
+		dup2(null_fd, STDERR_FILENO);
+		if (null_fd > STDERR_FILENO)
+			close(null_fd);
 	} else
 #endif
 	{
-- 
2.43.0


From bc173835a0cf12b69cb25cf21a9d98cab35387ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 31/31] fix: end the session when a close message cannot be
 sent

A client whose connection failed while it was told that its TCP connection
was closed was left in place, unaware of the close.
---
 src/proxy_conn.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index 91fea9d..790213f 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -532,7 +532,20 @@ static void forwarder_tcp(struct worker_handle *wh)
 
 	conn_close(&priv->conn_tcp);
 
-	send_tcp_close(pc);
+	ret = send_tcp_close(pc);
+
+	/* This is an error with the client connection */
+	switch (ret) {
+	case 0:
+	case -ECONNRESET:
+	case -EINTR:
+	case -ENOTCONN:
+	case -EPIPE:
+		break;
+	default:
+		proxy_conn_drop(pc);
+		break;
+	}
 
 	proxy_log(pc->ph, LOG_LEVEL_DEBUG,
 		  "Client '%s' TCP worker is returning cleanly\n",
@@ -699,7 +712,8 @@ static int process_tcp_data_message(struct proxy_conn_handle *pc,
 	if (tcp_ret != 0) {
 		/* The forwarder may not be done with the connection yet */
 		worker_wait_idle(&priv->worker_tcp);
-		send_tcp_close(pc);
+
+		return send_tcp_close(pc);
 	}
 
 	return 0;
-- 
2.43.0

