From 22c93612e3824d125be7607653b3aea69e29f7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:47 +0000
Subject: [PATCH 01/13] fix: pass follow through nested transformation lists

A configuration that is a plain list with a nested list or Collection raised
TypeError because the recursive call dropped the last argument.
---
 ocelot/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/model.py b/ocelot/model.py
index 0d487f9..3aff193 100644
--- a/ocelot/model.py
+++ b/ocelot/model.py
@@ -37,7 +37,7 @@ def apply_transformation(function, counter, data, output_dir, save_strategy, fol
         and not isinstance(function, wrapt.FunctionWrapper)):
         for obj in function:
             data = apply_transformation(obj, counter, data,
-                                        output_dir, save_strategy)
+                                        output_dir, save_strategy, follow)
         return data
     else:
         metadata = get_function_meta(function)
-- 
2.43.0


From 3f01c19d2b0b1dffe8c399a14d135c59baeaaf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:47 +0000
Subject: [PATCH 02/13] fix: delete unlinked exchanges instead of testing the
 dataset code

The filter looked at the code of the dataset, so unlinked inputs were kept in
every dataset with a code, and all exchanges were dropped otherwise.
---
 ocelot/transformations/locations/linking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/transformations/locations/linking.py b/ocelot/transformations/locations/linking.py
index 2167175..b0a90c8 100644
--- a/ocelot/transformations/locations/linking.py
+++ b/ocelot/transformations/locations/linking.py
@@ -242,7 +242,7 @@ def log_and_delete_unlinked_exchanges(data):
                 'type': 'table element',
                 'data': (ds['name'], exc['name'], exc['amount'])
             })
-        ds['exchanges'] = [exc for exc in ds['exchanges'] if ds.get('code')]
+        ds['exchanges'] = [exc for exc in ds['exchanges'] if not unlinked(exc)]
     return data
 
 log_and_delete_unlinked_exchanges.__table__ = {
-- 
2.43.0


From 883fddb6d3b42f50b86c25cdf2cb30c1518a2641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:47 +0000
Subject: [PATCH 03/13] fix: skip refinery gas without a market instead of
 using stale candidates

After the KeyError, `candidates` was either undefined or the markets of the
previous exchange, so refinery gas could be linked to another product.
---
 ocelot/transformations/locations/linking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/transformations/locations/linking.py b/ocelot/transformations/locations/linking.py
index b0a90c8..ac71b7f 100644
--- a/ocelot/transformations/locations/linking.py
+++ b/ocelot/transformations/locations/linking.py
@@ -147,7 +147,7 @@ def link_consumers_to_markets(data):
                 candidates = markets_mapping[exc['name']]
             except KeyError:
                 if exc['name'] == 'refinery gas':
-                    pass
+                    continue
                 else:
                     raise MissingSupplier("No markets found for product {}".format(exc['name']))
 
-- 
2.43.0


From 8bb776bf62d6c77b18e9ad5ac780e10cf4a847e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:47 +0000
Subject: [PATCH 04/13] fix: write consequential table rows to the ocelot
 logger

They went to the root logger and never reached the report; one table also
declared two columns for three values.
---
 .../transformations/consequential/constrained_markets.py  | 6 ++++--
 ocelot/transformations/consequential/technology_levels.py | 8 +++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ocelot/transformations/consequential/constrained_markets.py b/ocelot/transformations/consequential/constrained_markets.py
index a43979c..e6d7fcc 100644
--- a/ocelot/transformations/consequential/constrained_markets.py
+++ b/ocelot/transformations/consequential/constrained_markets.py
@@ -3,6 +3,8 @@ from ... import toolz
 from ..utils import get_single_reference_product
 import logging
 
+logger = logging.getLogger('ocelot')
+
 
 def flip_exchange(exc):
     """Flip amount and formula of an exchange"""
@@ -58,7 +60,7 @@ def handle_constrained_markets(data):
             target_exc['byproduct classification'] = 'allocatable product'
             flip_exchange(target_exc)
 
-            logging.info({
+            logger.info({
                 'type': 'table element',
                 'data': (exc['name'], target['name'],
                          target['location'], target_rp['name']),
@@ -96,7 +98,7 @@ def delete_activity_links_to_constrained_markets(data):
         )
         for exc in exchange_iterator:
             del exc['activity link']
-            logging.info({
+            logger.info({
                 'type': 'table element',
                 'data': (ds['name'], ds['location'],
                          exc['name'], exc['amount']),
diff --git a/ocelot/transformations/consequential/technology_levels.py b/ocelot/transformations/consequential/technology_levels.py
index 19451a8..ffe725d 100644
--- a/ocelot/transformations/consequential/technology_levels.py
+++ b/ocelot/transformations/consequential/technology_levels.py
@@ -3,6 +3,8 @@ from ... import toolz
 from ...collection import Collection
 import logging
 
+logger = logging.getLogger('ocelot')
+
 
 def log_conflicting_technology_levels(data):
     """Log anytime that there are both ``undefined`` and ``current`` inputs to a market.
@@ -14,7 +16,7 @@ def log_conflicting_technology_levels(data):
     for rp, datasets in toolz.groupby('reference product',
                                       filter(activity_ds_filter, data)).items():
         if has_undefined(datasets) and has_current(datasets):
-            logging.info({
+            logger.info({
                 'type': 'table element',
                 'data': (rp, len(datasets))
             })
@@ -31,7 +33,7 @@ def switch_undefined_to_current(data):
     for ds in filter(activity_ds_filter, data):
         if ds['technology level'] == 'undefined':
             ds['technology level'] = 'current'
-            logging.info({
+            logger.info({
                 'type': 'table element',
                 'data': (ds['name'], ds['reference product'], ds['location'])
             })
@@ -39,7 +41,7 @@ def switch_undefined_to_current(data):
 
 switch_undefined_to_current.__table__ = {
     'title': 'Switch all `undefined` activity technology levels to `current`',
-    'columns': ["Reference product", "Number of datasets"]
+    'columns': ["Name", "Reference product", "Location"]
 }
 
 
-- 
2.43.0


From 910a05443300876c8e766ccf7f460faa7bb22b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:47 +0000
Subject: [PATCH 05/13] fix: give cleanup_technology_levels a name

The first function was consumed as the collection name and never applied.
---
 ocelot/transformations/consequential/technology_levels.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocelot/transformations/consequential/technology_levels.py b/ocelot/transformations/consequential/technology_levels.py
index ffe725d..51c8aff 100644
--- a/ocelot/transformations/consequential/technology_levels.py
+++ b/ocelot/transformations/consequential/technology_levels.py
@@ -46,6 +46,7 @@ switch_undefined_to_current.__table__ = {
 
 
 cleanup_technology_levels = Collection(
+    "Clean up technology levels",
     log_conflicting_technology_levels,
     switch_undefined_to_current,
 )
-- 
2.43.0


From fca9e23cbb1f070c9ea5df02719808796a275ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:47 +0000
Subject: [PATCH 06/13] fix: only delete activity links to constrained
 activities

The set of constrained activities was computed but not used, so every
unconditional activity link was deleted.
---
 ocelot/transformations/consequential/constrained_markets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/transformations/consequential/constrained_markets.py b/ocelot/transformations/consequential/constrained_markets.py
index e6d7fcc..f063bf0 100644
--- a/ocelot/transformations/consequential/constrained_markets.py
+++ b/ocelot/transformations/consequential/constrained_markets.py
@@ -94,7 +94,7 @@ def delete_activity_links_to_constrained_markets(data):
         exchange_iterator = (
             exc for exc in ds['exchanges']
             if not exc.get('conditional exchange')
-            and exc.get('activity link')
+            and exc.get('activity link') in constrained_activities
         )
         for exc in exchange_iterator:
             del exc['activity link']
-- 
2.43.0


From daa07f2f8a880b87955de688a6c829ae24bf3d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:27 +0000
Subject: [PATCH 07/13] fix: add market suppliers in a reproducible order

Suppliers were taken from a set of location names, so the order of market
inputs changed with the string hash seed.
---
 ocelot/transformations/locations/markets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocelot/transformations/locations/markets.py b/ocelot/transformations/locations/markets.py
index ac1cedf..ecba36a 100644
--- a/ocelot/transformations/locations/markets.py
+++ b/ocelot/transformations/locations/markets.py
@@ -55,9 +55,9 @@ def apportion_market_suppliers_to_consumers(consumers, suppliers):
                 [obj['location'] for obj in group
             ])
             sd = {o['location']: o for o in group}
-            contained = [sd[key] for key in topology.contained(
+            contained = [sd[key] for key in sorted(topology.contained(
                 location, resolved_row=suppliers_row
-            ).intersection(set(sd))]
+            ).intersection(set(sd)))]
 
             # ecoinvent doesn't work like this, unfortunately...
             # Could have saved myself a lot of trouble.
-- 
2.43.0


From a10ad05810c0c5f8af918baf62679d3a1b358c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:27 +0000
Subject: [PATCH 08/13] fix: return a list of datasets from constrained market
 allocation

The dispatch iterates over the returned value, so a constrained market was
replaced by the keys of its dictionary.
---
 ocelot/transformations/cutoff/allocation.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ocelot/transformations/cutoff/allocation.py b/ocelot/transformations/cutoff/allocation.py
index 465a591..1a9dde7 100644
--- a/ocelot/transformations/cutoff/allocation.py
+++ b/ocelot/transformations/cutoff/allocation.py
@@ -16,6 +16,7 @@ from .wastes import (
     recycling_allocation,
     recycling_2_allocation,
 )
+import functools
 import logging
 
 logger = logging.getLogger('ocelot')
@@ -145,12 +146,18 @@ def choose_allocation_method(dataset):
         return "economic"
 
 
+@functools.wraps(constrained_market_allocation)
+def allocate_constrained_market(dataset):
+    # Allocation functions return a list of datasets
+    return [constrained_market_allocation(dataset)]
+
+
 ALLOCATION_METHODS = (
     ("single product", no_allocation),
     ("market group", no_allocation),
     ("unconstrained market", no_allocation),
     ("economic", economic_allocation),
-    ("constrained market", constrained_market_allocation),
+    ("constrained market", allocate_constrained_market),
     ("recycling", recycling_allocation),
     # ("recycling squared", recycling_2_allocation),
     ("waste treatment", waste_treatment_allocation),
-- 
2.43.0


From 587499df57264a8d6c272f168d391d27658b0300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:27 +0000
Subject: [PATCH 09/13] fix: write the cache file atomically

An interrupted run left a truncated pickle which was newer than the source
data, and was therefore used by every following run.
---
 ocelot/filesystem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ocelot/filesystem.py b/ocelot/filesystem.py
index c855950..5657ec2 100644
--- a/ocelot/filesystem.py
+++ b/ocelot/filesystem.py
@@ -116,8 +116,11 @@ def get_from_cache(data_path):
 
 def cache_data(data, data_path):
     """Write extracted ``data`` from source directory ``data_path`` to cache directory for future use."""
-    with open(get_cache_filepath_for_data_path(data_path), "wb") as f:
+    filepath = get_cache_filepath_for_data_path(data_path)
+    # An interrupted write must not leave a truncated, but fresh, cache file
+    with open(filepath + ".partial", "wb") as f:
         pickle.dump(data, f, protocol=pickle.HIGHEST_PROTOCOL)
+    os.replace(filepath + ".partial", filepath)
 
 
 class OutputDir(object):
-- 
2.43.0


From 6651db0cb7df2438c9cee224c7eae13e1855d0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:27 +0000
Subject: [PATCH 10/13] fix: stop writing to the log files of previous model
 runs

Handlers were never removed, so a second run in one process appended to the
logs of the first run (and recreated them if they had been deleted).
---
 ocelot/logger.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ocelot/logger.py b/ocelot/logger.py
index fec867b..d645b1b 100644
--- a/ocelot/logger.py
+++ b/ocelot/logger.py
@@ -40,6 +40,13 @@ class DatasetJsonFormatter(logging.Formatter):
         return json.dumps(message_dict, ensure_ascii=False)
 
 
+def remove_handlers(logger):
+    """Close log files of previous model runs"""
+    for handler in list(logger.handlers):
+        logger.removeHandler(handler)
+        handler.close()
+
+
 def create_log(output_dir):
     logger = logging.getLogger('ocelot')
     logger.propagate = False
@@ -47,6 +54,7 @@ def create_log(output_dir):
     filepath = os.path.join(output_dir, "report.log.json")
     handler = logging.FileHandler(filepath, encoding='utf-8')
     handler.setFormatter(formatter)
+    remove_handlers(logger)
     logger.addHandler(handler)
     logger.setLevel(logging.INFO)
     return filepath
@@ -59,6 +67,7 @@ def create_detailed_log(output_dir):
     filepath = os.path.join(output_dir, "detailed.log.json")
     handler = logging.FileHandler(filepath, encoding='utf-8')
     handler.setFormatter(formatter)
+    remove_handlers(logger)
     logger.addHandler(handler)
     logger.setLevel(logging.INFO)
     return filepath
-- 
2.43.0


From 94be7bd886fd47c302e1609765530ede1ec134fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:08 +0000
Subject: [PATCH 11/13] fix: only replace whole reserved words in formulas

`str.replace` also changed longer variable names like `yield_management`, and
the outcome depended on the iteration order of the set of reserved words.
---
 .../parameterization/python_compatibility.py           | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ocelot/transformations/parameterization/python_compatibility.py b/ocelot/transformations/parameterization/python_compatibility.py
index 7d15e1f..91b9c00 100644
--- a/ocelot/transformations/parameterization/python_compatibility.py
+++ b/ocelot/transformations/parameterization/python_compatibility.py
@@ -27,11 +27,11 @@ RESERVED_WORDS = {
     "pass", "raise", "return", "True", "try", "while", "with", "yield"
 }
 
-RESERVED_WORDS_RE = [(word, re.compile("(^|[^a-zA-Z_]){}($|[^a-zA-Z_])".format(word)))
-                     for word in RESERVED_WORDS]
+RESERVED_WORDS_RE = [(word, re.compile("(?<![a-zA-Z_]){}(?![a-zA-Z_])".format(word)))
+                     for word in sorted(RESERVED_WORDS)]
 
 RESERVED_WORDS_STARTING = [(word, re.compile("{}[^a-zA-Z_]".format(word)))
-                           for word in RESERVED_WORDS]
+                           for word in sorted(RESERVED_WORDS)]
 
 IF_RE = re.compile("if\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>[^;)]+)\)")
 IF_BEGINNING = re.compile("if\(")
@@ -204,7 +204,7 @@ def check_and_fix_formula(ds, string):
     updated = deepcopy(string)
     for word, reg_exp in RESERVED_WORDS_STARTING:
         if reg_exp.match(updated):
-            updated = updated.replace(word, word.upper())
+            updated = dict(RESERVED_WORDS_RE)[word].sub(word.upper(), updated)
             logger.info({
                 'type': 'table element',
                 'data': (ds['name'], word, string)
@@ -217,7 +217,7 @@ def check_and_fix_formula(ds, string):
         found = []
         for word, reg_exp in RESERVED_WORDS_RE:
             if reg_exp.search(updated):
-                updated = updated.replace(word, word.upper())
+                updated = reg_exp.sub(word.upper(), updated)
                 found.append(word)
         try:
             get_ast_names(updated)
-- 
2.43.0


From ea5fff2576f525fc6e2aef64629f3e87980cd1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:08 +0000
Subject: [PATCH 12/13] fix: extract files in a reproducible order

The order of os.listdir is arbitrary, and determines the order of the datasets.
---
 ocelot/io/extract_ecospold2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/io/extract_ecospold2.py b/ocelot/io/extract_ecospold2.py
index aec6380..6112199 100644
--- a/ocelot/io/extract_ecospold2.py
+++ b/ocelot/io/extract_ecospold2.py
@@ -221,7 +221,7 @@ def extract_ecospold2_directory(dirpath, use_mp=True):
 
     assert os.path.isdir(dirpath), "Can't find directory {}".format(dirpath)
     filelist = [os.path.join(dirpath, filename)
-                for filename in os.listdir(dirpath)
+                for filename in sorted(os.listdir(dirpath))
                 if filename.lower().endswith(".spold")
                 ]
 
-- 
2.43.0


From 5520135774e98503c98195f4686b79f375a17230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:44 +0000
Subject: [PATCH 13/13] fix: derive all custom errors from OcelotError

---
 ocelot/errors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocelot/errors.py b/ocelot/errors.py
index 3625486..1fc3eb4 100644
--- a/ocelot/errors.py
+++ b/ocelot/errors.py
@@ -48,12 +48,12 @@ class UnparsableFormula(OcelotError):
     pass
 
 
-class InvalidMarketExchange(Exception):
+class InvalidMarketExchange(OcelotError):
     """Markets aren't allowed to consume their own reference product"""
     pass
 
 
-class InvalidMarket(Exception):
+class InvalidMarket(OcelotError):
     """Markets can only have one reference product"""
     pass
 
@@ -63,7 +63,7 @@ class UnresolvableActivityLink(OcelotError):
     pass
 
 
-class MissingMandatoryProperty(Exception):
+class MissingMandatoryProperty(OcelotError):
     """Exchange is missing a mandatory property"""
     pass
 
-- 
2.43.0

