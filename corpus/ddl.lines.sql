CREATE DATABASE db
CREATE DATABASE IF NOT EXISTS db ON CLUSTER c ENGINE = Replicated('/p', 's', 'r') COMMENT 'x'
CREATE DATABASE db ENGINE = Atomic
CREATE DATABASE db COMMENT 'x'
CREATE TABLE t (a Int32) ENGINE = Memory
CREATE TABLE IF NOT EXISTS db.t UUID '5f1e5c4c-1111-2222-3333-444444444444' ON CLUSTER c (a Int32, b String) ENGINE = MergeTree ORDER BY a
CREATE OR REPLACE TABLE t (a Int32) ENGINE = MergeTree() ORDER BY (a, b) PARTITION BY toYYYYMM(d) PRIMARY KEY a SAMPLE BY a TTL d + INTERVAL 1 DAY SETTINGS index_granularity = 8192, x = 'y' COMMENT 'hello'
CREATE TEMPORARY TABLE t (a Int32)
CREATE TABLE t AS t2
CREATE TABLE t AS db.t2 ENGINE = Memory
CREATE TABLE t ENGINE = Memory AS SELECT 1
CREATE TABLE t (a Int32) ENGINE = Memory AS SELECT 1 AS a
CREATE TABLE t AS numbers(10)
CREATE TABLE t AS remote('h', db.t2)
CREATE TABLE t EMPTY AS SELECT 1
CREATE TABLE t CLONE AS t2
CREATE TABLE t (a Int32 DEFAULT 1, b String DEFAULT 'x', c Int32 MATERIALIZED a + 1, d Int32 ALIAS a * 2, e Int32 EPHEMERAL, f DateTime DEFAULT now()) ENGINE = Memory
CREATE TABLE t (a Int32 NOT NULL, b Int32 NULL, c Nullable(Int32), d Int32 NULL DEFAULT NULL) ENGINE = Memory
CREATE TABLE t (a Int32 COMMENT 'x', b Int32 CODEC(ZSTD(1)), c Int32 CODEC(Delta, LZ4HC(9)) TTL d + INTERVAL 1 DAY, e String DEFAULT 'a' COMMENT 'c' CODEC(NONE)) ENGINE = Memory
CREATE TABLE t (a Int32 CODEC(Delta(4), ZSTD(3)), b String CODEC(LZ4), c Float64 CODEC(Gorilla)) ENGINE = MergeTree ORDER BY tuple()
CREATE TABLE t (a LowCardinality(String), b Array(Array(Int8)), c Map(String, UInt64), d Tuple(a Int8, b String), e Tuple(Int8, String), f FixedString(16), g Decimal(10, 2), h DateTime64(3, 'UTC'), i Enum8('a' = 1, 'b' = -2), j Enum('x' = 1)) ENGINE = Memory
CREATE TABLE t (a Nested(b Int8, c String), d AggregateFunction(sum, UInt64), e SimpleAggregateFunction(max, Int8), f AggregateFunction(quantiles(0.5, 0.9), Float64), g Variant(Int8, String), h Dynamic, i JSON) ENGINE = Memory
CREATE TABLE t (j JSON(max_dynamic_types = 8), k JSON(max_dynamic_paths = 16), l JSON(max_dynamic_types=8, max_dynamic_paths=16, a.b UInt32, c String, SKIP d.e, SKIP REGEXP 'x'), m JSON(a String)) ENGINE = Memory
CREATE TABLE t (a Int32, INDEX i a TYPE minmax GRANULARITY 3, INDEX j (a, b) TYPE bloom_filter(0.01) GRANULARITY 1, INDEX k lower(a) TYPE tokenbf_v1(256, 2, 0), PROJECTION p (SELECT a, sum(b) GROUP BY a ORDER BY a), CONSTRAINT c CHECK a > 1) ENGINE = MergeTree ORDER BY a
CREATE TABLE t (a Int32, PROJECTION p (WITH 1 AS x SELECT a, x GROUP BY a), PROJECTION q (SELECT * ORDER BY a)) ENGINE = MergeTree ORDER BY a
CREATE TABLE t (a Int32, CONSTRAINT c CHECK a > 1, CONSTRAINT d ASSUME b < 2) ENGINE = Memory
CREATE TABLE t (a.b Int32, `x y` String, "z" Int8) ENGINE = Memory
CREATE TABLE t (a Int32 TTL d + INTERVAL 1 DAY DELETE) ENGINE = MergeTree ORDER BY a
CREATE TABLE t (d Date) ENGINE = MergeTree ORDER BY d TTL d + INTERVAL 1 MONTH DELETE, d + INTERVAL 1 WEEK TO VOLUME 'v', d + INTERVAL 2 WEEK TO DISK 'k'
CREATE TABLE t (d Date) ENGINE = MergeTree ORDER BY d TTL d + INTERVAL 1 MONTH DELETE WHERE a > 1
CREATE TABLE t (d Date) ENGINE = MergeTree ORDER BY d TTL d + INTERVAL 1 MONTH WHERE a > 1
CREATE TABLE t (d Date) ENGINE = MergeTree ORDER BY d TTL d + INTERVAL 1 MONTH GROUP BY a SET b = max(b)
CREATE TABLE t (d Date) ENGINE = MergeTree ORDER BY d TTL d + INTERVAL 1 MONTH RECOMPRESS CODEC(ZSTD(17)), d + INTERVAL 1 YEAR RECOMPRESS CODEC(LZ4HC(10))
CREATE TABLE t (d Date) ENGINE = MergeTree ORDER BY d TTL d + INTERVAL 1 MONTH TO DISK 'a' WHERE x = 1
CREATE TABLE t (d Date) ENGINE = MergeTree ORDER BY d TTL d + INTERVAL 1 MONTH TO VOLUME 'a' GROUP BY x
CREATE TABLE t (d Date) ENGINE = Distributed('c', 'db', 't', rand())
CREATE TABLE t (d Date) ENGINE = ReplicatedMergeTree('/clickhouse/{shard}', '{replica}') ORDER BY (d, a DESC)
CREATE TABLE t (d Date) ENGINE = MergeTree ORDER BY tuple() SETTINGS a = 1
CREATE TABLE t (d Date) ENGINE = MergeTree ORDER BY d ASC
CREATE TABLE t (d Date) ENGINE = MergeTree PRIMARY KEY (a, b) ORDER BY (a, b) PARTITION BY (a, b)
CREATE TABLE t (d Date, PRIMARY KEY (d)) ENGINE = MergeTree
CREATE TABLE t ON CLUSTER 'c' (d Date) ENGINE = Memory
CREATE TABLE t ON CLUSTER '{cluster}' (d Date) ENGINE = Kafka SETTINGS kafka_broker_list = 'h:1', kafka_topic_list = 't'
ATTACH TABLE t (a Int32) ENGINE = Memory
ATTACH TABLE t UUID '5f1e5c4c-1111-2222-3333-444444444444' (a Int32) ENGINE = Memory
CREATE VIEW v AS SELECT 1
CREATE OR REPLACE VIEW v AS SELECT 1
CREATE VIEW IF NOT EXISTS db.v UUID '5f1e5c4c-1111-2222-3333-444444444444' ON CLUSTER c (a Int32) AS SELECT a FROM t COMMENT 'x'
CREATE VIEW v (a) AS SELECT 1 AS a
CREATE VIEW v COMMENT 'x' AS SELECT 1
CREATE MATERIALIZED VIEW mv TO t AS SELECT 1
CREATE MATERIALIZED VIEW IF NOT EXISTS db.mv ON CLUSTER c TO db.t (a Int32) AS SELECT a FROM x
CREATE MATERIALIZED VIEW mv TO t AS SELECT a FROM x COMMENT 'c'
CREATE MATERIALIZED VIEW mv ENGINE = MergeTree ORDER BY a POPULATE AS SELECT a FROM x
CREATE MATERIALIZED VIEW mv (a Int32) ENGINE = MergeTree ORDER BY a AS SELECT a FROM x
CREATE MATERIALIZED VIEW mv REFRESH EVERY 1 DAY TO t AS SELECT 1
CREATE MATERIALIZED VIEW mv REFRESH EVERY 1 DAY OFFSET 2 HOUR RANDOMIZE FOR 3 MINUTE DEPENDS ON a, db.b SETTINGS x = 1, y = 2 APPEND TO t EMPTY AS SELECT 1
CREATE MATERIALIZED VIEW mv REFRESH AFTER 1 DAY APPEND TO t AS SELECT 1
CREATE MATERIALIZED VIEW mv REFRESH EVERY 1 HOUR DEPENDS ON x ENGINE = MergeTree ORDER BY a EMPTY AS SELECT 1
CREATE MATERIALIZED VIEW mv TO t DEFINER = u SQL SECURITY DEFINER AS SELECT 1
CREATE MATERIALIZED VIEW mv TO t DEFINER = CURRENT_USER SQL SECURITY INVOKER AS SELECT 1
CREATE MATERIALIZED VIEW mv TO t SQL SECURITY NONE AS SELECT 1
CREATE LIVE VIEW lv AS SELECT 1
CREATE LIVE VIEW IF NOT EXISTS db.lv UUID '5f1e5c4c-1111-2222-3333-444444444444' ON CLUSTER c WITH TIMEOUT 10 TO t (a Int32) AS SELECT 1
CREATE LIVE VIEW lv WITH TIMEOUT TO db.t AS SELECT 1
CREATE FUNCTION f AS (x, k) -> x * k
CREATE FUNCTION IF NOT EXISTS f ON CLUSTER c AS x -> x + 1
CREATE OR REPLACE FUNCTION f AS (x) -> x
CREATE ROLE r
CREATE ROLE IF NOT EXISTS r1, r2@'h' ON CLUSTER c IN disk SETTINGS a = 1 READONLY, b = 'x' MIN 1 MAX 2, PROFILE 'p'
CREATE ROLE OR REPLACE r SETTINGS a = 1 WRITABLE
CREATE ROLE r SETTINGS PROFILE 'x', max_memory_usage = 10 MIN = 1 MAX = 20 CONST
CREATE ROLE r SETTINGS a CHANGEABLE_IN_READONLY, NONE
CREATE USER u
CREATE USER IF NOT EXISTS u1, u2@'h' ON CLUSTER c
CREATE USER OR REPLACE u NOT IDENTIFIED
CREATE USER u IDENTIFIED BY 'x'
CREATE USER u IDENTIFIED WITH sha256_password BY 'x'
CREATE USER u IDENTIFIED WITH sha256_hash BY 'x' SALT 'y'
CREATE USER u IDENTIFIED WITH no_password
CREATE USER u IDENTIFIED WITH ldap SERVER 's'
CREATE USER u IDENTIFIED WITH kerberos
CREATE USER u IDENTIFIED WITH kerberos REALM 'r'
CREATE USER u IDENTIFIED WITH ssl_certificate CN 'x'
CREATE USER u HOST LOCAL, NAME 'n', REGEXP 'r', IP '1.2.3.4', LIKE 'x'
CREATE USER u HOST ANY
CREATE USER u HOST NONE
CREATE USER u VALID UNTIL '2025-01-01'
CREATE USER u DEFAULT ROLE r1, r2
CREATE USER u DEFAULT ROLE NONE
CREATE USER u DEFAULT ROLE ALL
CREATE USER u DEFAULT DATABASE d
CREATE USER u DEFAULT DATABASE NONE
CREATE USER u GRANTEES u1, u2 EXCEPT u3, u4
CREATE USER u GRANTEES ANY EXCEPT u3
CREATE USER u GRANTEES NONE
CREATE USER u SETTINGS a = 1, b = 2 READONLY
CREATE USER u SETTINGS PROFILE 'p', a = 1 MIN 0 MAX 5
CREATE USER u IDENTIFIED WITH plaintext_password BY 'x' HOST LOCAL VALID UNTIL '2030-01-01' DEFAULT ROLE r DEFAULT DATABASE d GRANTEES ANY SETTINGS a = 1
ALTER ROLE r RENAME TO s
ALTER ROLE IF EXISTS r RENAME TO s, q@'h' SETTINGS a = 1
ALTER ROLE r ON CLUSTER c RENAME TO s SETTINGS a = 1 READONLY
ALTER ROLE r1, r2 SETTINGS NONE
CREATE NAMED COLLECTION c AS a = 1, b = 'x' OVERRIDABLE, d = 2 NOT OVERRIDABLE
CREATE NAMED COLLECTION IF NOT EXISTS c ON CLUSTER x AS a = 1.5
CREATE DICTIONARY d (id UInt64, v String DEFAULT 'x') PRIMARY KEY id SOURCE(CLICKHOUSE(HOST 'h' PORT 9000 TABLE 't')) LAYOUT(FLAT()) LIFETIME(300)
CREATE OR REPLACE DICTIONARY IF NOT EXISTS db.d UUID '5f1e5c4c-1111-2222-3333-444444444444' ON CLUSTER c (id UInt64 DEFAULT 0 EXPRESSION f(1) HIERARCHICAL INJECTIVE IS_OBJECT_ID, p UInt64 HIERARCHICAL) PRIMARY KEY id, p SOURCE(MYSQL(PORT 3306 USER 'u' REPLICA(HOST 'h' PRIORITY 1))) LAYOUT(COMPLEX_KEY_HASHED(SHARDS 10)) LIFETIME(MIN 1 MAX 2) RANGE(MIN a MAX b) SETTINGS(x = 1) COMMENT 'hello'
CREATE DICTIONARY d (id UInt64) PRIMARY KEY id LAYOUT(HASHED()) SOURCE(FILE(PATH '/x' FORMAT CSV)) LIFETIME(MAX 10 MIN 5) RANGE(MAX b MIN a)
CREATE DICTIONARY d (id UInt64) PRIMARY KEY id SOURCE(NULL()) LIFETIME(0) LAYOUT(DIRECT)
CREATE DICTIONARY d (id UInt64) PRIMARY KEY (id) SOURCE(HTTP(URL 'u' FORMAT TSV CREDENTIALS(USER 'a' PASSWORD 'b') HEADERS(HEADER(NAME 'n' VALUE 'v')))) LAYOUT(CACHE(SIZE_IN_CELLS 100)) LIFETIME(1)
CREATE DICTIONARY d (id UInt64) PRIMARY KEY id SOURCE(CLICKHOUSE(QUERY 'select 1' SECURE 1 DB currentDatabase() WHERE 'x')) LAYOUT(RANGE_HASHED()) RANGE(MIN s MAX e) LIFETIME(100)
ALTER TABLE t ADD COLUMN a Int32
ALTER TABLE IF EXISTS db.t ON CLUSTER c ADD COLUMN IF NOT EXISTS a Int32 DEFAULT 1 AFTER b, ADD COLUMN x String FIRST SETTINGS y = 1
ALTER TABLE t DROP COLUMN a, DROP COLUMN IF EXISTS b
ALTER TABLE t CLEAR COLUMN a IN PARTITION p
ALTER TABLE t CLEAR COLUMN IF EXISTS a IN PARTITION 'x'
ALTER TABLE t CLEAR COLUMN a
ALTER TABLE t CLEAR INDEX i IN PARTITION p
ALTER TABLE t CLEAR INDEX IF EXISTS i
ALTER TABLE t CLEAR PROJECTION p IN PARTITION q
ALTER TABLE t CLEAR PROJECTION IF EXISTS p
ALTER TABLE t RENAME COLUMN a TO b, RENAME COLUMN IF EXISTS c TO d
ALTER TABLE t MODIFY COLUMN a Int64, MODIFY COLUMN IF EXISTS b String DEFAULT 'x'
ALTER TABLE t MODIFY COLUMN a REMOVE DEFAULT
ALTER TABLE t MODIFY COLUMN a REMOVE TTL
ALTER TABLE t MODIFY COLUMN a REMOVE COMMENT
ALTER TABLE t MODIFY COLUMN a REMOVE CODEC
ALTER TABLE t MODIFY COLUMN a REMOVE MATERIALIZED
ALTER TABLE t MODIFY COLUMN a REMOVE ALIAS
ALTER TABLE t MODIFY TTL d + INTERVAL 1 DAY
ALTER TABLE t MODIFY TTL d + INTERVAL 1 DAY DELETE WHERE a > 1
ALTER TABLE t MODIFY QUERY SELECT a FROM x
ALTER TABLE t MODIFY ORDER BY (a, b)
ALTER TABLE t MODIFY ORDER BY a
ALTER TABLE t MODIFY SETTING a = 1, b = 'x'
ALTER TABLE t RESET SETTING a, b
ALTER TABLE t REMOVE TTL
ALTER TABLE t ADD INDEX i a TYPE minmax GRANULARITY 1
ALTER TABLE t ADD INDEX IF NOT EXISTS i (a, b) TYPE set(10) GRANULARITY 1 AFTER j
ALTER TABLE t DROP INDEX i, DROP INDEX IF EXISTS j
ALTER TABLE t MATERIALIZE INDEX i
ALTER TABLE t MATERIALIZE INDEX IF EXISTS i IN PARTITION p
ALTER TABLE t ADD PROJECTION p (SELECT a GROUP BY a)
ALTER TABLE t ADD PROJECTION IF NOT EXISTS p (SELECT a, b ORDER BY a, b) AFTER q
ALTER TABLE t ADD PROJECTION p (WITH 1 AS x SELECT x)
ALTER TABLE t DROP PROJECTION p, DROP PROJECTION IF EXISTS q
ALTER TABLE t MATERIALIZE PROJECTION p
ALTER TABLE t MATERIALIZE PROJECTION IF EXISTS p IN PARTITION q
ALTER TABLE t ATTACH PARTITION p
ALTER TABLE t ATTACH PARTITION p FROM db.t2
ALTER TABLE t ATTACH PARTITION ALL
ALTER TABLE t DETACH PARTITION p SETTINGS x = 1
ALTER TABLE t DETACH PARTITION ALL
ALTER TABLE t DROP PARTITION '2020'
ALTER TABLE t DROP PARTITION ID 'x'
ALTER TABLE t DROP DETACHED PARTITION p SETTINGS allow_drop_detached = 1
ALTER TABLE t DROP PARTITION ALL
ALTER TABLE t FREEZE
ALTER TABLE t FREEZE PARTITION p
ALTER TABLE t REPLACE PARTITION p FROM t2
ALTER TABLE t REPLACE PARTITION (1, 2) FROM db.t2
ALTER TABLE t DELETE WHERE a = 1
ALTER TABLE t UPDATE a = 1, b = b + 1 WHERE c > 2
ALTER TABLE t UPDATE a = 1 IN PARTITION p WHERE c > 2
DROP DATABASE d
DROP DATABASE IF EXISTS d ON CLUSTER c SYNC
DROP DATABASE d NO DELAY
DROP TABLE t
DROP TABLE IF EXISTS db.t ON CLUSTER c SYNC
DROP TABLE t NO DELAY
DROP TEMPORARY TABLE t
DROP TABLE IF EMPTY t
DROP VIEW v
DROP VIEW IF EXISTS v ON CLUSTER c SYNC
DROP MATERIALIZED VIEW v
DROP DICTIONARY d
DROP DICTIONARY IF EXISTS db.d SYNC
DROP FUNCTION f
DROP USER u
DROP USER IF EXISTS u1, u2 ON CLUSTER c FROM disk
DROP ROLE r1, r2@'h'
DROP ROLE IF EXISTS r ON CLUSTER c
DROP NAMED COLLECTION c
DETACH TABLE t
DETACH TABLE IF EXISTS db.t ON CLUSTER c SYNC
DETACH DATABASE d
DETACH VIEW v
DETACH DICTIONARY d
RENAME TABLE a TO b
RENAME TABLE a TO b, c.d TO e.f ON CLUSTER x
RENAME DATABASE a TO b
RENAME DICTIONARY a TO b ON CLUSTER c
TRUNCATE TABLE t
TRUNCATE TABLE IF EXISTS db.t ON CLUSTER c
TRUNCATE t
TRUNCATE TEMPORARY TABLE t
OPTIMIZE TABLE t
OPTIMIZE TABLE db.t ON CLUSTER c PARTITION p FINAL DEDUPLICATE
OPTIMIZE TABLE t FINAL DEDUPLICATE BY a, b
OPTIMIZE TABLE t DEDUPLICATE BY * EXCEPT (a, b)
OPTIMIZE TABLE t DEDUPLICATE BY * EXCEPT a
OPTIMIZE TABLE t DEDUPLICATE BY COLUMNS('x') EXCEPT (y)
OPTIMIZE TABLE t DEDUPLICATE
CHECK TABLE t
CHECK TABLE db.t PARTITION p
DELETE FROM t WHERE a = 1
DELETE FROM db.t ON CLUSTER c WHERE a = 1
INSERT INTO t VALUES (1, 'a'), (2, 'b')
INSERT INTO t (a, b) VALUES (1, 'a')
INSERT INTO TABLE db.t (a, b.c) VALUES (1, now())
INSERT INTO t SELECT a FROM x
INSERT INTO t (a) SELECT a FROM x WHERE b
INSERT INTO t (a) WITH y AS (SELECT 1) SELECT a FROM y
INSERT INTO FUNCTION remote('h', db.t) VALUES (1)
INSERT INTO FUNCTION file('x') SELECT 1
INSERT INTO t (a) FORMAT JSONEachRow
INSERT INTO t FORMAT Values
INSERT INTO t SETTINGS x = 1 VALUES (1)
INSERT INTO t (*) VALUES (1)
INSERT INTO t (a, b) VALUES (?, ?)
INSERT INTO t VALUES
USE db
SET a = 1
SET a = 1, b = 'x', c = {'k': 1}
SET ROLE r
SHOW CREATE TABLE t
SHOW CREATE db.t
SHOW CREATE DATABASE d
SHOW CREATE VIEW v
SHOW DATABASES
SHOW DATABASES LIKE 'x%'
SHOW DATABASES NOT LIKE 'x%' LIMIT 3
SHOW DATABASES ILIKE 'x' LIMIT 10 INTO OUTFILE 'f' FORMAT JSON
SHOW DATABASES NOT ILIKE 'x' INTO OUTFILE 'f'
SHOW TABLES
SHOW TABLES FROM db LIKE 'x'
SHOW PROCESSLIST
SHOW GRANTS
DESCRIBE TABLE t
DESC t
DESC TABLE db.t
DESCRIBE db.t FORMAT JSON
EXISTS TABLE t
KILL QUERY WHERE a = 1
SYSTEM FLUSH LOGS
SYSTEM FLUSH DISTRIBUTED db.t
SYSTEM DROP DNS CACHE
SYSTEM DROP MARK CACHE
SYSTEM DROP UNCOMPRESSED CACHE
SYSTEM DROP FILESYSTEM CACHE
SYSTEM DROP COMPILED EXPRESSION CACHE
SYSTEM RELOAD DICTIONARIES
SYSTEM RELOAD DICTIONARY d
SYSTEM RELOAD DICTIONARIES ON CLUSTER c
SYSTEM RELOAD DICTIONARY db.d
SYSTEM RELOAD CONFIG
SYSTEM RELOAD EMBEDDED DICTIONARIES
SYSTEM SYNC REPLICA db.t
SYSTEM START MERGES t
SYSTEM STOP MERGES
SYSTEM START TTL MERGES t
SYSTEM STOP FETCHES t
SYSTEM START DISTRIBUTED SENDS db.t
SYSTEM STOP DISTRIBUTED SENDS t
SYSTEM START REPLICATED SENDS t
SYSTEM STOP REPLICATED SENDS
GRANT SELECT ON db.t TO u
GRANT SELECT(a, b), INSERT(c) ON *.* TO u1, u2@'h' WITH GRANT OPTION
GRANT ON CLUSTER c SELECT ON db.* TO u WITH ADMIN OPTION WITH REPLACE OPTION
GRANT ALL ON *.* TO u
GRANT NONE ON *.* TO u
GRANT r1, r2 TO u
GRANT ALTER, ALTER TABLE, ALTER UPDATE, ALTER DELETE, ALTER COLUMN, ALTER ADD COLUMN, ALTER DROP COLUMN(a), ALTER MODIFY COLUMN, ALTER COMMENT COLUMN, ALTER CLEAR COLUMN, ALTER RENAME COLUMN ON t TO u
GRANT ALTER INDEX, ALTER ORDER BY, ALTER SAMPLE BY, ALTER ADD INDEX, ALTER DROP INDEX, ALTER MATERIALIZE INDEX, ALTER CLEAR INDEX, ALTER CONSTRAINT, ALTER ADD CONSTRAINT, ALTER DROP CONSTRAINT, ALTER TTL, ALTER MATERIALIZE TTL ON t TO u
GRANT ALTER SETTINGS, ALTER MOVE PARTITION, ALTER FETCH PARTITION, ALTER FREEZE PARTITION, ALTER VIEW REFRESH, ALTER VIEW MODIFY QUERY ON t TO u
GRANT CREATE, CREATE DATABASE, CREATE TABLE, CREATE VIEW, CREATE DICTIONARY, CREATE TEMPORARY TABLE, CREATE FUNCTION, CREATE USER, CREATE ROLE ON *.* TO u
GRANT DROP, DROP DATABASE, DROP TABLE, DROP VIEW, DROP DICTIONARY, DROP FUNCTION, DROP USER, DROP ROLE ON *.* TO u
GRANT SHOW, SHOW DATABASES, SHOW TABLES, SHOW COLUMNS, SHOW DICTIONARIES, SHOW USERS, SHOW ROLES ON *.* TO u
GRANT SYSTEM, SYSTEM SHUTDOWN, SYSTEM DROP CACHE, SYSTEM DROP DNS CACHE, SYSTEM DROP MARK CACHE, SYSTEM DROP UNCOMPRESSED CACHE, SYSTEM RELOAD, SYSTEM RELOAD CONFIG, SYSTEM RELOAD DICTIONARY, SYSTEM RELOAD EMBEDDED DICTIONARIES, SYSTEM MERGES, SYSTEM TTL MERGES, SYSTEM FETCHES, SYSTEM MOVES, SYSTEM SENDS, SYSTEM DISTRIBUTED SENDS, SYSTEM REPLICATED SENDS, SYSTEM REPLICATION QUEUES, SYSTEM SYNC REPLICA, SYSTEM RESTART REPLICA, SYSTEM FLUSH, SYSTEM FLUSH DISTRIBUTED, SYSTEM FLUSH LOGS ON *.* TO u
GRANT TRUNCATE, OPTIMIZE, KILL QUERY, ADMIN, ROLE ADMIN, dictGet, SOURCES, FILE, URL, REMOTE, INTROSPECTION, addressToLine ON *.* TO u
GRANT SELECT ON t TO CURRENT_USER
GRANT SELECT ON * TO u
REVOKE SELECT ON t FROM u
SELECT 1; SELECT 2
SELECT 1;; SELECT 2;
; SELECT 1
SELECT a -- comment
SELECT /* c */ a FROM /* d */ t
SELECT a # comment
select a from t where b = 1 group by c order by d limit 1
