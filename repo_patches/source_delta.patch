From 24d130233e57a3f43ca3d4bfb1eb95cd3af68a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 01/38] fix: advance the buffer after a partial send

conn_send and conn_send_to retransmitted the beginning of the buffer when
the kernel accepted only part of it.
---
 src/conn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index c6cb978..bd6db56 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -596,7 +596,6 @@ int conn_send(struct conn_handle *conn, const uint8_t *buff, size_t buff_len)
 
 	if (priv->fd != INVALID_SOCKET) {
 		while (buff_len > 0) {
-			/*! @TODO Bug? buff isn't changed */
 			ret = send(priv->fd, (const char *)buff, (socklen_t)buff_len,
 				   MSG_NOSIGNAL);
 
@@ -617,6 +616,7 @@ int conn_send(struct conn_handle *conn, const uint8_t *buff, size_t buff_len)
 			}
 
 			buff_len -= ret;
+			buff += ret;
 		}
 
 		ret = 0;
@@ -650,7 +650,6 @@ int conn_send_to(struct conn_handle *conn, const uint8_t *buff,
 
 	if (priv->fd != INVALID_SOCKET) {
 		while (buff_len > 0) {
-			/*! @TODO Bug? buff isn't changed */
 			ret = sendto(priv->fd, (const char *)buff,
 				     (socklen_t)buff_len, MSG_NOSIGNAL,
 				     (struct sockaddr *)&saddr,
@@ -672,6 +671,7 @@ int conn_send_to(struct conn_handle *conn, const uint8_t *buff,
 			}
 
 			buff_len -= ret;
+			buff += ret;
 		}
 
 		ret = 0;
-- 
2.43.0


From 7f942d1db08f2cf5cf26d0719c5e7423ebaa0cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 02/38] fix: print the remote port in host byte order

---
 src/conn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index bd6db56..8c898c1 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -805,7 +805,7 @@ void conn_get_remote_addr(const struct conn_handle *conn, char dest[54])
 		inet_ntop(addr->sin_family, &addr->sin_addr.s_addr, dest, 46);
 		dest += strlen(dest);
 		dest[0] = ':';
-		conn_port_to_str(addr->sin_port, dest + 1);
+		conn_port_to_str(ntohs(addr->sin_port), dest + 1);
 		break;
 	case AF_INET6:
 		dest[0] = '[';
@@ -814,7 +814,7 @@ void conn_get_remote_addr(const struct conn_handle *conn, char dest[54])
 		dest += strlen(dest);
 		dest[0] = ']';
 		dest[1] = ':';
-		conn_port_to_str(addr6->sin6_port, dest + 2);
+		conn_port_to_str(ntohs(addr6->sin6_port), dest + 2);
 		break;
 	default:
 		strcpy(dest, "(unknown)");
-- 
2.43.0


From 8f6d2cee6cf96a9b90067e0020484bb185779234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 03/38] fix: close the socket when conn_connect cannot set an
 option

---
 src/conn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 8c898c1..2d1e898 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -398,7 +398,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
-		goto conn_connect_free_early;
+		goto conn_connect_free;
 	}
 
 #ifdef __APPLE__
@@ -406,7 +406,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
-		goto conn_connect_free_early;
+		goto conn_connect_free;
 	}
 #endif
 
-- 
2.43.0


From 133d6a68ad163b972701fe5662ec320d9dc61951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 04/38] fix: close the socket when conn_listen fails

A failed conn_listen left its socket behind, and the next attempt on the
same handle overwrote the descriptor.
---
 src/conn.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 2d1e898..e4ad107 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -235,34 +235,30 @@ int conn_listen(struct conn_handle *conn)
 	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_REUSEADDR,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
-		/*! @TODO Close priv->sock_fd */
 		ret = SOCK_ERRNO;
-		goto conn_listen_free;
+		goto conn_listen_close;
 	}
 
 #ifdef __APPLE__
 	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_NOSIGPIPE,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
-		/*! @TODO Close priv->sock_fd */
 		ret = SOCK_ERRNO;
-		goto conn_listen_free;
+		goto conn_listen_close;
 	}
 #endif
 
 	ret = bind(priv->sock_fd, res->ai_addr, (socklen_t)res->ai_addrlen);
 	if (ret == SOCKET_ERROR) {
-		/*! @TODO Close priv->sock_fd */
 		ret = SOCK_ERRNO;
-		goto conn_listen_free;
+		goto conn_listen_close;
 	}
 
 	if (conn->type == CONN_TYPE_TCP) {
 		ret = listen(priv->sock_fd, 0);
 		if (ret == SOCKET_ERROR) {
-			/*! @TODO Close priv->sock_fd */
-			ret = SOCK_ERRNO;
-			goto conn_listen_free;
+				ret = SOCK_ERRNO;
+			goto conn_listen_close;
 		}
 	}
 
@@ -272,6 +268,13 @@ int conn_listen(struct conn_handle *conn)
 
 	mutex_unlock(&priv->mutex);
 
+	goto conn_listen_free;
+
+conn_listen_close:
+	closesocket(priv->sock_fd);
+
+	priv->sock_fd = INVALID_SOCKET;
+
 conn_listen_free:
 	freeaddrinfo(res);
 
-- 
2.43.0


From 1e7cb821b2045586eec9066b5604e901c9a79c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 05/38] fix: keep forwarding after an empty datagram

An empty UDP datagram was taken for the end of the connection, so that
any host could stop the forwarding to a client for the rest of its session.
---
 src/conn.c       | 4 +++-
 src/proxy_conn.c | 4 ----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index e4ad107..d98fb40 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -564,7 +564,9 @@ int conn_recv_any(struct conn_handle *conn, uint8_t *buff, size_t buff_len,
 		       &priv->remote_addr_len);
 
 	if (ret == 0) {
-		ret = -EPIPE;
+		/* A datagram may be empty, in which case it has a sender */
+		if (conn->type != CONN_TYPE_UDP || priv->remote_addr_len == 0)
+			ret = -EPIPE;
 	} else if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
 
diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index 8476133..15ebce2 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -346,8 +346,6 @@ static void forwarder_control(struct worker_handle *wh)
 
 				return;
 			}
-		} else if (ret == 0) {
-			ret = -EPIPE;
 		}
 	} while (ret >= 0);
 
@@ -430,8 +428,6 @@ static void forwarder_data(struct worker_handle *wh)
 
 				return;
 			}
-		} else if (ret == 0) {
-			ret = -EPIPE;
 		}
 	} while (ret >= 0);
 
-- 
2.43.0


From ac0050b77a6c1f3c2a8eb04ae779635dde9e86be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 06/38] fix: terminate the string made by digest_to_str

---
 src/digest.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/digest.c b/src/digest.c
index 978ee70..c73933c 100644
--- a/src/digest.c
+++ b/src/digest.c
@@ -137,6 +137,8 @@ void digest_to_str(const uint8_t md5[DIGEST_LEN],
 
 	for (i = 0; i < DIGEST_LEN; i++, result += 2)
 		digest_to_hex8_u(md5[i], result);
+
+	*result = '\0';
 }
 
 static uint8_t hex4_to_digest(char data)
-- 
2.43.0


From f98fa3ea114e769db05594ea0c786576ebacd362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 07/38] fix: report failures of proxy_conn_init

---
 src/proxy_conn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index 15ebce2..d6cbde8 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -979,7 +979,7 @@ proxy_conn_init_exit:
 	free(pc->priv);
 	pc->priv = NULL;
 
-	return 0;
+	return ret;
 }
 
 int proxy_conn_in_use(struct proxy_conn_handle *pc)
-- 
2.43.0


From ff7e2abe97fdbf359102f91140075a6c97169d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 08/38] fix: close the previous TCP connection before opening
 another

The previous socket was leaked, and the client stalled behind the thread
which was still receiving from it.
---
 src/proxy_conn.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index d6cbde8..c3f2669 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -721,6 +721,10 @@ static int process_tcp_open_message(struct proxy_conn_handle *pc,
 		return -EINVAL;
 	}
 
+	/* Finish with the previous connection, if there is one */
+	conn_close(&priv->conn_tcp);
+	worker_wait_idle(&priv->worker_tcp);
+
 	/* Attempt to connect */
 	ret = conn_connect(&priv->conn_tcp, (const char *)addr, "5200");
 	if (ret < 0) {
-- 
2.43.0


From e14cd59fd5ba92c33bca2f5ac070dde0b0713260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 09/38] fix: do not let a stalled TCP peer hold up a dropped
 client

---
 src/proxy_conn.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index c3f2669..c6b03fd 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -856,6 +856,9 @@ void proxy_conn_drop(struct proxy_conn_handle *pc)
 	if (priv->conn_client != NULL)
 		conn_drop(priv->conn_client);
 
+	/* A transmission to the remote host could be holding up the client */
+	conn_shutdown(&priv->conn_tcp);
+
 	mutex_unlock_shared(&priv->mutex_client);
 }
 
-- 
2.43.0


From 60d039fa7c050a66a0b7990036a1d52161637d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 10/38] fix: make room for the name in the registration digest
 buffer

---
 src/registration.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/registration.c b/src/registration.c
index df6d7ce..05866f4 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -329,7 +329,8 @@ int registration_service_start(struct registration_service_handle *rs,
 
 	if (priv->reg_suffix != NULL)
 		free((void *)priv->reg_suffix);
-	reg_suffix = malloc(strlen(public_addr) + (2 * DIGEST_LEN) +
+	reg_suffix = malloc(strlen(priv->reg_name) + strlen(public_addr) +
+			    (2 * DIGEST_LEN) +
 			    sizeof(protocol_version) + 18);
 	if (reg_suffix == NULL) {
 		ret = -ENOMEM;
-- 
2.43.0


From 9b53948ebe05114d9bda7d2c27fcf888b7149209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 11/38] fix: allow registration without a comment

---
 src/registration.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/registration.c b/src/registration.c
index 05866f4..7010e75 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -325,7 +325,7 @@ int registration_service_start(struct registration_service_handle *rs,
 	priv->public = strcmp(conf->password, "PUBLIC") == 0 ? 'Y' : 'N';
 
 	priv->reg_name = conf->reg_name;
-	priv->reg_comment = conf->reg_comment;
+	priv->reg_comment = conf->reg_comment == NULL ? "" : conf->reg_comment;
 
 	if (priv->reg_suffix != NULL)
 		free((void *)priv->reg_suffix);
-- 
2.43.0


From 2f2598cccc1168afd09472f54e52488780768cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 12/38] fix: do not keep a dangling registration suffix

---
 src/registration.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/registration.c b/src/registration.c
index 7010e75..44bfae8 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -329,6 +329,7 @@ int registration_service_start(struct registration_service_handle *rs,
 
 	if (priv->reg_suffix != NULL)
 		free((void *)priv->reg_suffix);
+	priv->reg_suffix = NULL;
 	reg_suffix = malloc(strlen(priv->reg_name) + strlen(public_addr) +
 			    (2 * DIGEST_LEN) +
 			    sizeof(protocol_version) + 18);
-- 
2.43.0


From c36b081b4225e4315875d1d3e633b5da011ec244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 13/38] fix: reject a configuration without a password

---
 src/proxy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index 64e4c53..a522ba3 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -516,6 +516,12 @@ int proxy_load_conf(struct proxy_handle *ph, const char *path)
 	if (ret < 0)
 		return ret;
 
+	if (ph->conf.password == NULL) {
+		proxy_log(ph, LOG_LEVEL_ERROR,
+			  "Error: Missing password\n");
+		return -EINVAL;
+	}
+
 	if (ph->conf.connection_timeout != 0) {
 		proxy_log(ph, LOG_LEVEL_WARN,
 			  "ConnectionTimeout is not supported this version of OpenELP\n");
-- 
2.43.0


From dc0c0f972a5b148c2b33059b99a0506892bdd495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 14/38] fix: check the allocation in get_password_response

---
 src/proxy.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index a522ba3..6f04a61 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -1021,6 +1021,9 @@ int get_password_response(uint32_t nonce, const char *password,
 	uint8_t *pass_with_nonce = malloc(pass_with_nonce_len);
 	char *iter = (char *)pass_with_nonce;
 
+	if (pass_with_nonce == NULL)
+		return -ENOMEM;
+
 	while (*password != '\0') {
 		if (*password >= 97 && *password <= 122)
 			*iter = *password - 32;
-- 
2.43.0


From 076aa52238fba8d7184e1b4594e29c3f4f0c318d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 15/38] fix: replace the additional addresses when they are
 given again

---
 src/conf.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index e6058ba..aeb9893 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -378,15 +378,18 @@ static int conf_parse_pair(const char *key, size_t key_len,
 		if (strncmp(key, "AdditionalExternalBindAddresses", key_len) == 0) {
 			size_t i, j;
 
-			if (conf->bind_addr_ext_add != NULL)
-				free(conf->bind_addr_ext_add);
+			if (conf->bind_addr_ext_add != NULL) {
+				for (i = 0; i < conf->bind_addr_ext_add_len; i++)
+					free(conf->bind_addr_ext_add[i]);
 
-			if (val_len == 0) {
+				free(conf->bind_addr_ext_add);
 				conf->bind_addr_ext_add = NULL;
 				conf->bind_addr_ext_add_len = 0;
-				break;
 			}
 
+			if (val_len == 0)
+				break;
+
 			for (i = 1; i < val_len; i++)
 				if (val[i] == ',')
 					conf->bind_addr_ext_add_len++;
-- 
2.43.0


From 52b80ffb0b37b8007ee872ced73ee8de94233b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 16/38] fix: reject port numbers which are out of range

---
 src/conf.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/conf.c b/src/conf.c
index aeb9893..6a8bcf7 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -203,13 +203,18 @@ static int conf_parse_pair(const char *key, size_t key_len,
 	switch (key_len) {
 	case 4:
 		if (strncmp(key, "Port", key_len) == 0) {
-			if (sscanf(val, "%hu%1s", &conf->port, dummy) != 1) {
+			unsigned long port;
+
+			if (sscanf(val, "%lu%1s", &port, dummy) != 1 ||
+			    port > 65535) {
 				log_printf(log, LOG_LEVEL_ERROR,
 					   "Invalid configuration value for 'Port': '%.*s'\n",
 					   (int)val_len, val);
 
 				return -EINVAL;
 			}
+
+			conf->port = (uint16_t)port;
 		}
 
 		break;
-- 
2.43.0


From c58bf7db15363db56acaf5354b1b94e4ad742215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 17/38] fix: report a failure to read the configuration

---
 src/conf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 6a8bcf7..91b198c 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -448,7 +448,7 @@ static int conf_parse_stream(FILE *stream, struct proxy_conf *conf,
 	size_t line_len = 0;
 	int ret = 0;
 
-	while (conf_readline(&line, &line_len, stream) > 0) {
+	while ((ret = conf_readline(&line, &line_len, stream)) > 0) {
 		ret = conf_parse_line(line, conf, log);
 
 		free(line);
@@ -460,7 +460,7 @@ static int conf_parse_stream(FILE *stream, struct proxy_conf *conf,
 
 	free(line);
 
-	return 0;
+	return ret;
 }
 
 int conf_init(struct proxy_conf *conf)
-- 
2.43.0


From 7219fe013c8c59f9cba6986fa440ce4dad493f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 18/38] fix: leave nothing behind when proxy_open fails

---
 src/proxy.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index 6f04a61..2c8adad 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -665,8 +665,10 @@ int proxy_open(struct proxy_handle *ph)
 	priv->num_clients = 1 + ph->conf.bind_addr_ext_add_len;
 
 	priv->clients = calloc(priv->num_clients, sizeof(*priv->clients));
-	if (priv->clients == NULL)
-		return -ENOMEM;
+	if (priv->clients == NULL) {
+		ret = -ENOMEM;
+		goto proxy_open_exit;
+	}
 
 	priv->client_workers = calloc(priv->num_clients,
 				      sizeof(struct proxy_worker));
@@ -820,11 +822,11 @@ int proxy_open(struct proxy_handle *ph)
 	return 0;
 
 proxy_open_exit_later:
-	priv->idle_workers_head = NULL;
 	for (i = 0; i < priv->num_clients; i++)
 		proxy_worker_free(&priv->client_workers[i]);
 
 proxy_open_exit_late:
+	priv->idle_workers_head = NULL;
 	priv->idle_clients_head = NULL;
 	priv->idle_clients_tail_ptr = NULL;
 	for (i = 0; i < priv->num_clients; i++)
-- 
2.43.0


From 4f44209b475763ba85f8725c7a3854550439cb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 19/38] fix: empty the list of idle workers after they have
 stopped

A worker which finishes while the proxy is closing adds itself to the list.
---
 src/proxy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index 2c8adad..6ea4abb 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -869,9 +869,9 @@ void proxy_close(struct proxy_handle *ph)
 
 	proxy_log(ph, LOG_LEVEL_DEBUG, "Closing client connections...\n");
 
-	priv->idle_workers_head = NULL;
 	for (i = 0; i < priv->num_clients; i++)
 		proxy_worker_free(&priv->client_workers[i]);
+	priv->idle_workers_head = NULL;
 
 	memset(priv->clients_by_call, 0x0, sizeof(priv->clients_by_call));
 	priv->idle_clients_head = NULL;
-- 
2.43.0


From d98014b184898a9897625f07d007b79aaeba5e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 20/38] fix: do not close what was not opened when proxy_init
 fails

---
 src/proxy.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index 6ea4abb..7577789 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -603,7 +603,16 @@ int proxy_init(struct proxy_handle *ph)
 	return 0;
 
 proxy_init_exit:
-	proxy_free(ph);
+	mutex_free(&priv->idle_workers_mutex);
+	mutex_free(&priv->idle_clients_mutex);
+	mutex_free(&priv->usable_clients_mutex);
+	registration_service_free(&priv->reg_service);
+	conn_free(&priv->conn_listen);
+	conf_free(&ph->conf);
+	log_free(&priv->log);
+	rand_free();
+	free(ph->priv);
+	ph->priv = NULL;
 
 	return ret;
 }
-- 
2.43.0


From 75c5dd9dfb7aee6aacec84ca563b22d359c5225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 21/38] fix: drop the clients which have not been authorized
 yet

Shutting down waited for them to finish the handshake, or to go away.
---
 src/proxy.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index 7577789..ecb9910 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -910,8 +910,17 @@ void proxy_drop(struct proxy_handle *ph)
 
 	proxy_log(ph, LOG_LEVEL_DEBUG, "Dropping all clients...\n");
 
-	for (i = 0; i < priv->num_clients; i++)
+	for (i = 0; i < priv->num_clients; i++) {
+		struct proxy_worker *pw = &priv->client_workers[i];
+
+		/* The client might not have been assigned to a slot yet */
+		mutex_lock_shared(&pw->mutex);
+		if (pw->conn_client != NULL)
+			conn_drop(pw->conn_client);
+		mutex_unlock_shared(&pw->mutex);
+
 		proxy_conn_drop(&priv->clients[i]);
+	}
 }
 
 void proxy_shutdown(struct proxy_handle *ph)
-- 
2.43.0


From 3a3822ae9798b6c0bd20ab1f8104c26115471bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 22/38] fix: register again when the proxy is started again

The update was ignored while the service was still marked as off.
---
 src/proxy.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index ecb9910..72b07e3 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -1093,7 +1093,6 @@ int proxy_start(struct proxy_handle *ph)
 	priv->usable_clients = priv->num_clients;
 	mutex_unlock(&priv->usable_clients_mutex);
 
-	proxy_update_registration(ph);
 	ret = registration_service_start(&priv->reg_service, &ph->conf);
 	if (ret < 0) {
 		proxy_log(ph, LOG_LEVEL_FATAL,
@@ -1102,6 +1101,8 @@ int proxy_start(struct proxy_handle *ph)
 		goto proxy_start_exit;
 	}
 
+	proxy_update_registration(ph);
+
 	return 0;
 
 proxy_start_exit:
-- 
2.43.0


From 0415ecba7c56d72b0696408ad89bf1843e435233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 23/38] fix: return the worker when it cannot accept a client

---
 src/proxy.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index 72b07e3..00f35ad 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -1017,8 +1017,13 @@ int proxy_process(struct proxy_handle *ph)
 	}
 
 	ret = proxy_worker_accept(worker, conn);
-	if (ret < 0)
+	if (ret < 0) {
+		mutex_lock(&priv->idle_workers_mutex);
+		worker->next = priv->idle_workers_head;
+		priv->idle_workers_head = worker;
+		mutex_unlock(&priv->idle_workers_mutex);
 		goto conn_process_exit;
+	}
 
 	return 0;
 
-- 
2.43.0


From 95cd4c76333f15aaab26f59ecd9b3bc6a75cc92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 24/38] fix: do not reassign a slot before it is back in the
 pool

A client which reconnected at just the right time was given a slot which
was not in the pool, and the pool was corrupted by removing it.
---
 src/proxy.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index 00f35ad..c40ea28 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -376,9 +376,13 @@ static void proxy_worker_func(struct worker_handle *wh)
 	pc = priv->clients_by_call[hash];
 	/* First, check for a reconnect */
 	while (pc != NULL) {
-		ret = proxy_conn_accept(pc, pw->conn_client, pw->callsign, 1);
-		if (ret != -EBUSY)
-			break;
+		/* The slot might not have been returned to the pool yet */
+		if (pc->prev_ptr != NULL) {
+			ret = proxy_conn_accept(pc, pw->conn_client,
+						pw->callsign, 1);
+			if (ret != -EBUSY)
+				break;
+		}
 		pc = pc->next_by_call;
 	}
 	/* Fall back on the oldest available slot */
@@ -400,6 +404,7 @@ static void proxy_worker_func(struct worker_handle *wh)
 		priv->idle_clients_tail_ptr = pc->prev_ptr;
 	else
 		pc->next->prev_ptr = pc->prev_ptr;
+	pc->prev_ptr = NULL;
 
 	/* Remove the slot from the hash map */
 	if (pc->prev_by_call_ptr != NULL) {
@@ -426,8 +431,8 @@ static void proxy_worker_func(struct worker_handle *wh)
 	proxy_conn_finish(pc);
 
 	/* Put the slot back in the pool */
-	pc->next = NULL;
 	mutex_lock(&priv->idle_clients_mutex);
+	pc->next = NULL;
 	pc->prev_ptr = priv->idle_clients_tail_ptr;
 	*priv->idle_clients_tail_ptr = pc;
 	priv->idle_clients_tail_ptr = &pc->next;
-- 
2.43.0


From 505c038708201be38b848518519122a70b72fe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 25/38] fix: leave a worker stopped when its thread cannot be
 started

---
 src/worker.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worker.c b/src/worker.c
index 5ecf36d..a4f20b0 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -260,6 +260,8 @@ int worker_start(struct worker_handle *wh)
 	if (priv->state <= WORKER_STOPPED) {
 		priv->state = WORKER_STARTING;
 		ret = thread_start(&priv->thread);
+		if (ret < 0)
+			priv->state = WORKER_STOPPED;
 	}
 
 	mutex_unlock(&priv->mutex);
-- 
2.43.0


From e1b07dc7cfa8ea78ddab3c0900f4ba42168daa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 26/38] fix: close the log file or syslog when it is no longer
 used

---
 src/log.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/log.c b/src/log.c
index 1616307..14b5c78 100644
--- a/src/log.c
+++ b/src/log.c
@@ -208,7 +208,6 @@ int log_select_medium(struct log_handle *log, enum LOG_MEDIUM medium,
 	/* Open the new medium */
 	switch (medium) {
 	case LOG_MEDIUM_NONE:
-		log->medium = LOG_MEDIUM_NONE;
 		switch (log->medium) {
 		case LOG_MEDIUM_FILE:
 			if (priv->medium_file.fp != NULL) {
@@ -227,11 +226,15 @@ int log_select_medium(struct log_handle *log, enum LOG_MEDIUM medium,
 				priv->medium_eventlog.handle = NULL;
 			}
 
+			break;
+		default:
 			break;
 		}
+
+		log->medium = LOG_MEDIUM_NONE;
+
 		break;
 	case LOG_MEDIUM_STDOUT:
-		log->medium = LOG_MEDIUM_STDOUT;
 		switch (log->medium) {
 		case LOG_MEDIUM_FILE:
 			if (priv->medium_file.fp != NULL) {
@@ -255,6 +258,8 @@ int log_select_medium(struct log_handle *log, enum LOG_MEDIUM medium,
 			break;
 		}
 
+		log->medium = LOG_MEDIUM_STDOUT;
+
 		break;
 	case LOG_MEDIUM_FILE:
 	{
-- 
2.43.0


From 3a3cf2e060c3257b8745e448ea3c872ea7e41d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:23 +0000
Subject: [PATCH 27/38] fix: wait for the shared lock after waiting on a
 condition

A thread returned from condvar_wait with the exclusive lock while others
held the shared lock.
---
 src/mutex_posix.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/mutex_posix.c b/src/mutex_posix.c
index 3469e69..ed0a9e9 100644
--- a/src/mutex_posix.c
+++ b/src/mutex_posix.c
@@ -232,7 +232,15 @@ int condvar_wait(struct condvar_handle *condvar, struct mutex_handle *mutex)
 	struct condvar_priv *priv = condvar->priv;
 	struct mutex_priv *mpriv = mutex->priv;
 
-	return -pthread_cond_wait(&priv->cond, &mpriv->lock);
+	int ret;
+
+	ret = pthread_cond_wait(&priv->cond, &mpriv->lock);
+
+	/* The lock is exclusive, so wait for the shared lock to be released */
+	while (mpriv->readers > 0)
+		pthread_cond_wait(&mpriv->cond, &mpriv->lock);
+
+	return -ret;
 }
 
 int condvar_wait_time(struct condvar_handle *condvar,
@@ -249,6 +257,11 @@ int condvar_wait_time(struct condvar_handle *condvar,
 	abstime.tv_nsec %= 1000000000;
 
 	ret = pthread_cond_timedwait(&priv->cond, &mpriv->lock, &abstime);
+
+	/* The lock is exclusive, so wait for the shared lock to be released */
+	while (mpriv->readers > 0)
+		pthread_cond_wait(&mpriv->cond, &mpriv->lock);
+
 	return ret == ETIMEDOUT ? 1 : -ret;
 }
 
-- 
2.43.0


From 62b2d6409f2a7337f2dd74e054b007067919903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:58 +0000
Subject: [PATCH 28/38] fix: close an accepted descriptor whose options cannot
 be set

---
 src/conn.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index d98fb40..ecd7184 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -285,6 +285,7 @@ int conn_accept(struct conn_handle *conn, struct conn_handle *accepted)
 {
 	struct conn_priv *priv = conn->priv;
 	struct conn_priv *apriv = accepted->priv;
+	int ret;
 
 #ifdef _WIN32
 	uint32_t bytes_returned;
@@ -318,29 +319,24 @@ int conn_accept(struct conn_handle *conn, struct conn_handle *accepted)
 		     sizeof(keepalive), NULL, 0, &bytes_returned,
 		     NULL, NULL) !=
 	    0)
-		/*! @TODO Close apriv->conn_fd */
-		return SOCK_ERRNO;
+		goto conn_accept_drop;
 
 #else
 	if (setsockopt(apriv->conn_fd, SOL_SOCKET, SO_KEEPALIVE, &yes,
 		       sizeof(yes)) == SOCKET_ERROR)
-		/*! @TODO Close apriv->conn_fd */
-		return SOCK_ERRNO;
+		goto conn_accept_drop;
 
 	if (setsockopt(apriv->conn_fd, SOL_TCP, TCP_KEEPIDLE, &ten_min,
 		       sizeof(ten_min)) == SOCKET_ERROR)
-		/*! @TODO Close apriv->conn_fd */
-		return SOCK_ERRNO;
+		goto conn_accept_drop;
 
 	if (setsockopt(apriv->conn_fd, SOL_TCP, TCP_KEEPINTVL, &twelve_sec,
 		       sizeof(twelve_sec)) == SOCKET_ERROR)
-		/*! @TODO Close apriv->conn_fd */
-		return SOCK_ERRNO;
+		goto conn_accept_drop;
 
 	if (setsockopt(apriv->conn_fd, SOL_TCP, TCP_KEEPCNT, &ten,
 		       sizeof(ten)) == SOCKET_ERROR)
-		/*! @TODO Close apriv->conn_fd */
-		return SOCK_ERRNO;
+		goto conn_accept_drop;
 
 #endif
 
@@ -351,6 +347,13 @@ int conn_accept(struct conn_handle *conn, struct conn_handle *accepted)
 	mutex_unlock(&apriv->mutex);
 
 	return 0;
+
+conn_accept_drop:
+	ret = SOCK_ERRNO;
+
+	conn_drop(accepted);
+
+	return ret;
 }
 
 int conn_connect(struct conn_handle *conn, const char *addr,
-- 
2.43.0


From d7fcca61f9fec0111ea2f735d73eb07cb1ef1727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 29/38] fix: never report slot counts older than the ones last
 reported

---
 src/proxy.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index c40ea28..2fc8015 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -1138,17 +1138,21 @@ void proxy_update_registration(struct proxy_handle *ph)
 	mutex_lock_shared(&priv->usable_clients_mutex);
 	slots_total = priv->usable_clients;
 	slots_used = priv->num_clients;
-	mutex_unlock_shared(&priv->usable_clients_mutex);
 
 	mutex_lock_shared(&priv->idle_workers_mutex);
 	for (pw = priv->idle_workers_head; pw != NULL; pw = pw->next)
 		slots_used--;
-	mutex_unlock_shared(&priv->idle_workers_mutex);
 
 	proxy_log(ph, LOG_LEVEL_DEBUG,
 		  "Sending update to registrar (%d/%d)\n",
 		  slots_used, slots_total);
 
+	/* The counts must not change before they're handed on, or an older
+	 * update could overwrite a newer one
+	 */
 	registration_service_update(&priv->reg_service, slots_used,
 				    slots_total);
+
+	mutex_unlock_shared(&priv->idle_workers_mutex);
+	mutex_unlock_shared(&priv->usable_clients_mutex);
 }
-- 
2.43.0


From f0627f8a530d8d214f3ad2278850735637c81f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 30/38] fix: report the slot as free again when a client fails
 to authenticate

---
 src/proxy.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index 2fc8015..0918f31 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -356,6 +356,8 @@ static void proxy_worker_func(struct worker_handle *wh)
 		priv->idle_workers_head = pw;
 		mutex_unlock(&priv->idle_workers_mutex);
 
+		proxy_update_registration(pw->ph);
+
 		return;
 	}
 
-- 
2.43.0


From 7bd74c3cd93c2818f78b186d1aeb475d015f8466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 31/38] fix: release the denied callsigns pattern when opening
 the proxy fails

---
 src/proxy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index 0918f31..9e0d00c 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -855,6 +855,12 @@ proxy_open_exit:
 		priv->re_calls_allowed = NULL;
 	}
 
+	if (priv->re_calls_denied != NULL) {
+		regex_free(priv->re_calls_denied);
+		free(priv->re_calls_denied);
+		priv->re_calls_denied = NULL;
+	}
+
 	log_close(&priv->log);
 
 	free(priv->client_workers);
-- 
2.43.0


From 5e7191075908c95e8222e490d25ce2d87517e9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 32/38] fix: do not close a connection that could not be made
 while another thread shuts it down

---
 src/conn.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index ecd7184..8961c32 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -271,10 +271,14 @@ int conn_listen(struct conn_handle *conn)
 	goto conn_listen_free;
 
 conn_listen_close:
+	mutex_lock(&priv->mutex);
+
 	closesocket(priv->sock_fd);
 
 	priv->sock_fd = INVALID_SOCKET;
 
+	mutex_unlock(&priv->mutex);
+
 conn_listen_free:
 	freeaddrinfo(res);
 
@@ -441,12 +445,16 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 	return 0;
 
 conn_connect_free:
+	mutex_lock(&priv->mutex);
+
 	shutdown(priv->sock_fd, SHUT_RDWR);
 
 	closesocket(priv->sock_fd);
 
 	priv->sock_fd = INVALID_SOCKET;
 
+	mutex_unlock(&priv->mutex);
+
 conn_connect_free_early:
 	if (res_remote != NULL)
 		freeaddrinfo(res_remote);
-- 
2.43.0


From ca87e7060689d38b5931d2bc870bfa304fba4968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 33/38] fix: keep every address of
 AdditionalExternalBindAddresses

The number of addresses was counted from the second character, so a list
starting with a comma lost its last address; and the number was kept when
the list itself could not be allocated, so that loading a configuration
again counted on top of it.
---
 src/conf.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 91b198c..6c5963b 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -395,7 +395,7 @@ static int conf_parse_pair(const char *key, size_t key_len,
 			if (val_len == 0)
 				break;
 
-			for (i = 1; i < val_len; i++)
+			for (i = 0; i < val_len; i++)
 				if (val[i] == ',')
 					conf->bind_addr_ext_add_len++;
 
@@ -404,8 +404,10 @@ static int conf_parse_pair(const char *key, size_t key_len,
 			conf->bind_addr_ext_add = calloc(
 				conf->bind_addr_ext_add_len,
 				sizeof(*conf->bind_addr_ext_add));
-			if (conf->bind_addr_ext_add == NULL)
+			if (conf->bind_addr_ext_add == NULL) {
+				conf->bind_addr_ext_add_len = 0;
 				return -ENOMEM;
+			}
 
 			for (i = 0, j = 0; i < conf->bind_addr_ext_add_len; i++) {
 				size_t k = j;
-- 
2.43.0


From 1628a6f7dec2b8507d91e8ee9ed2e0137b272403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:16 +0000
Subject: [PATCH 34/38] fix: ignore a shutdown request for a proxy that is not
 initialized

The daemon installs its signal handlers before the proxy is initialized and
leaves them in place after it was freed; a signal at either time made
proxy_shutdown use a null pointer.
---
 src/proxy.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index 9e0d00c..35b18e9 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -940,6 +940,9 @@ void proxy_shutdown(struct proxy_handle *ph)
 {
 	struct proxy_priv *priv = ph->priv;
 
+	if (priv == NULL)
+		return;
+
 	proxy_log(ph, LOG_LEVEL_DEBUG, "Proxy shutdown requested.\n");
 
 	mutex_lock(&priv->usable_clients_mutex);
-- 
2.43.0


From 719f364c4a59b31b48b100f673bb851fc55400a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:05 +0000
Subject: [PATCH 35/38] fix: send the TCP status message before anything about
 the new connection

---
 src/proxy_conn.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index c6b03fd..b89983c 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -731,7 +731,12 @@ static int process_tcp_open_message(struct proxy_conn_handle *pc,
 		proxy_log(pc->ph, LOG_LEVEL_WARN,
 			  "Failed to open TCP connection for client '%s' (%d): %s\n",
 			  priv->callsign, -ret, strerror(-ret));
-	} else {
+	}
+
+	/* Nothing about the new connection may precede the status message */
+	mutex_lock(&priv->mutex_client_send);
+
+	if (ret >= 0) {
 		/* Connection succeeded - signal the thread */
 		ret = worker_wake(&priv->worker_tcp);
 		if (ret < 0)
@@ -750,8 +755,6 @@ static int process_tcp_open_message(struct proxy_conn_handle *pc,
 		  "Sending TCP_STATUS message (%d) to client '%s'\n",
 		  ret, priv->callsign);
 
-	mutex_lock(&priv->mutex_client_send);
-
 	ret = conn_send(priv->conn_client, status_buf,
 			sizeof(*status_msg) + status_msg->size);
 
-- 
2.43.0


From 60382b53f6a9b1af80993d176519af9b9bc9f1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:20 +0000
Subject: [PATCH 36/38] fix: let other threads see the socket of a connection
 attempt only under the lock

---
 src/conn.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index 8961c32..50e47be 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -397,13 +397,19 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 		goto conn_connect_free_early;
 	}
 
+	/* From here on another thread may shut the attempt down */
+	mutex_lock(&priv->mutex);
+
 	priv->sock_fd = socket(res->ai_family, res->ai_socktype,
 			       res->ai_protocol);
 	if (priv->sock_fd == INVALID_SOCKET) {
 		ret = SOCK_ERRNO;
+		mutex_unlock(&priv->mutex);
 		goto conn_connect_free_early;
 	}
 
+	mutex_unlock(&priv->mutex);
+
 	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_REUSEADDR,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
-- 
2.43.0


From 62e578635b35536f6c8880ec2584982b3da4a74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:27 +0000
Subject: [PATCH 37/38] fix: set the receive timeout of an accepted connection
 on its own socket

---
 src/conn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index 50e47be..8af6b4b 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -722,7 +722,7 @@ int conn_set_timeout(struct conn_handle *conn, uint32_t msec)
 #endif
 
 	mutex_lock_shared(&priv->mutex);
-	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_RCVTIMEO,
+	ret = setsockopt(priv->fd, SOL_SOCKET, SO_RCVTIMEO,
 			 (const void *)&val, sizeof(val));
 	if (ret == SOCKET_ERROR)
 		ret = SOCK_ERRNO;
-- 
2.43.0


From 0a45ba8e185f324e354b4801f37009b7125c86a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:11 +0000
Subject: [PATCH 38/38] fix: refuse a list of more external addresses than can
 be counted

With 65536 addresses the 16-bit count went round and all but the first slot
were silently left out.
---
 src/conf.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 6c5963b..628270d 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -381,7 +381,7 @@ static int conf_parse_pair(const char *key, size_t key_len,
 		break;
 	case 31:
 		if (strncmp(key, "AdditionalExternalBindAddresses", key_len) == 0) {
-			size_t i, j;
+			size_t i, j, count = 1;
 
 			if (conf->bind_addr_ext_add != NULL) {
 				for (i = 0; i < conf->bind_addr_ext_add_len; i++)
@@ -397,9 +397,13 @@ static int conf_parse_pair(const char *key, size_t key_len,
 
 			for (i = 0; i < val_len; i++)
 				if (val[i] == ',')
-					conf->bind_addr_ext_add_len++;
+					count++;
 
-			conf->bind_addr_ext_add_len++;
+			/* More than can be counted */
+			if (count > UINT16_MAX)
+				return -EINVAL;
+
+			conf->bind_addr_ext_add_len = (uint16_t)count;
 
 			conf->bind_addr_ext_add = calloc(
 				conf->bind_addr_ext_add_len,
-- 
2.43.0

