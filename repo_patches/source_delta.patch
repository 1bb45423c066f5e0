From e325fd4df79cc104f1c00326704c2e036de0bb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 01/31] fix: set null values of empty bins by position, bin
 labels may not be unique

---
 oups/aggstream/cumsegagg.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/oups/aggstream/cumsegagg.py b/oups/aggstream/cumsegagg.py
index e6afc18..7dcb121 100644
--- a/oups/aggstream/cumsegagg.py
+++ b/oups/aggstream/cumsegagg.py
@@ -530,15 +530,19 @@ def cumsegagg(
         )
     # Set null values.
     if n_max_null_bins != 0:
-        null_bin_labels = bin_labels.iloc[null_bin_indices[~nisin(null_bin_indices, -1)]]
-        if not null_bin_labels.empty:
+        # Positions are used, not labels, as several bins may share a same label.
+        null_bin_indices = null_bin_indices[~nisin(null_bin_indices, -1)]
+        if len(null_bin_indices):
             for dtype_, (
                 _,
                 cols_name_in_res,
                 _,
                 _,
             ) in agg.items():
-                bin_res.loc[null_bin_labels, cols_name_in_res] = NULL_DICT[dtype_]
+                bin_res.iloc[
+                    null_bin_indices,
+                    bin_res.columns.get_indexer(cols_name_in_res),
+                ] = NULL_DICT[dtype_]
     if snap_by is not None:
         snap_res = pDataFrame(snap_res, index=snap_labels, copy=False)
         snap_res.index.name = ordered_on
-- 
2.43.0


From b9b98bcf08fa35ed7e2a0612b2f2b5a2c3707c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:16 +0000
Subject: [PATCH 02/31] fix: restart segmentation by a scale given as a Series

---
 oups/aggstream/segmentby.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index a36fd42..bceb142 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -23,6 +23,7 @@ from numpy import ndenumerate
 from numpy import nonzero
 from numpy import zeros
 from pandas import DataFrame as pDataFrame
+from pandas import Index
 from pandas import IntervalIndex
 from pandas import Series as pSeries
 from pandas import Timedelta
@@ -231,6 +232,9 @@ def by_scale(
                 )
         else:
             chunk_labels = chunk_ends = by
+        # Below, items are accessed by position, including after the first ones
+        # have been trimmed. It is not possible with a Series.
+        chunk_labels, chunk_ends = Index(chunk_labels), Index(chunk_ends)
         if buffer:
             # In case at previous iteration, there has been no snapshot,
             # 'buffer' will not contain 'KEY_RESTART_KEY', but will contain
-- 
2.43.0


From bb178f7621aed1b53c4dd94217b0423a12665d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:03 +0000
Subject: [PATCH 03/31] fix: keep origin of the time grid at restart when a day
 is not a multiple of the period

---
 oups/aggstream/segmentby.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index bceb142..de27202 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -31,6 +31,7 @@ from pandas import concat as pconcat
 from pandas import date_range
 from pandas.core.resample import TimeGrouper
 from pandas.core.resample import _get_timestamp_range_edges as gtre
+from pandas.tseries.offsets import Tick
 
 
 # Some constants.
@@ -47,6 +48,9 @@ KEY_LAST_BIN_LABEL = "last_bin_label"
 KEY_LAST_BIN_END = "last_bin_end"
 KEY_RESTART_KEY = "restart_key"
 KEY_LAST_ON_VALUE = "last_on_value"
+KEY_ORIGIN = "origin"
+# Value of "origin" in a pandas TimeGrouper.
+START_DAY = "start_day"
 # Keys for 'bin_by' when a dict
 KEY_ON_COLS = "on_cols"
 KEY_BIN_BY = "bin_by"
@@ -208,13 +212,23 @@ def by_scale(
         # to use 'closed' provided.
         if closed is None:
             closed = by.closed
+        origin = by.origin
+        if (
+            buffer is not None
+            and origin == START_DAY
+            and isinstance(by.freq, Tick)
+            and Timedelta(1, "D") % Timedelta(by.freq)
+        ):
+            # A day not being a multiple of 'freq', chunk ends depend on the
+            # day of 'first'. Keep that of 1st iteration.
+            origin = buffer.setdefault(KEY_ORIGIN, first.normalize())
         start, end = gtre(
             first=first,
             last=on.iloc[-1],
             freq=by.freq,
             closed=closed,
             unit=first.unit,
-            origin=by.origin,
+            origin=origin,
             offset=by.offset,
         )
         edges = date_range(start, end, freq=by.freq)
-- 
2.43.0


From 1d76ff2724a0a100f7a23d136d13106ddd650495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 04/31] fix: coalescing when there is no incomplete row group,
 or when new data overlaps first row group

---
 oups/store/writer.py | 1230 +++++++++++++++++++++---------------------
 1 file changed, 615 insertions(+), 615 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 871f3a4..40d9867 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -1,615 +1,615 @@
-#!/usr/bin/env python3
-"""
-Created on Wed Dec  6 22:30:00 2021.
-
-@author: yoh
-
-"""
-from ast import literal_eval
-from os import listdir as os_listdir
-from os import path as os_path
-from pickle import dumps
-from pickle import loads
-from typing import Dict, Hashable, List, Tuple, Union
-
-from fastparquet import ParquetFile
-from fastparquet import write as fp_write
-from fastparquet.api import filter_row_groups
-from fastparquet.api import statistics
-from fastparquet.util import update_custom_metadata
-from numpy import searchsorted as np_searchsorted
-from numpy import unique as np_unique
-from pandas import DataFrame as pDataFrame
-from pandas import Index
-from pandas import MultiIndex
-from vaex import from_pandas
-from vaex import open_many
-from vaex.dataframe import DataFrame as vDataFrame
-
-
-COMPRESSION = "SNAPPY"
-MAX_ROW_GROUP_SIZE = 6_345_000
-KEY_MAX_ROW_GROUP_SIZE = "max_row_group_size"
-KEY_DUPLICATES_ON = "duplicates_on"
-# Notes to any dev.
-# Store any oups-specific metadata in this dict, such as oups-based application
-# metadata.
-# When appending new data, use `OUPS_METADATA.update()`.
-# `OUPS_METADATA` can be used as a buffer, to keep in memory the metadata to
-# be updated, till a write is triggered.
-# Metadata itself should be within a nested dict, referred to by a `md_key`.
-# By use of a `md_key`, management in parallel of metadata for several keys is
-# possible (i.e. several dataset in difference `ParquetFile`).
-OUPS_METADATA = {}
-# In a fastparquet `ParquetFile`, oups-specific metadata is stored as value for
-# key `OUPS_METADATA_KEY`.
-OUPS_METADATA_KEY = "oups"
-
-
-def iter_dataframe(
-    data: Union[pDataFrame, vDataFrame],
-    max_row_group_size: int = None,
-    sharp_on: str = None,
-    duplicates_on: Union[str, List[str]] = None,
-):
-    """
-    Yield dataframe chunks.
-
-    Parameters
-    ----------
-    data : Union[pDataFrame, vDataFrame]
-        Data to split in row groups.
-    max_row_group_size : int, optional
-        Max size of row groups. It is a max as duplicates are dropped by row
-        group to be written, hereby reducing the row group size (if
-        ``duplicates_on`` parameter is set).
-        If not set, default to ``6_345_000``.
-    sharp_on : str, optional
-        Name of column where to check that ends of bins (which split the data
-        to be written) do not fall in the middle of duplicate values.
-        This parameter is required when ``duplicates_on`` is used.
-        This option requires a vaex dataframe.
-        If not set, default to ``None``.
-    duplicates_on : Union[str, List[str]], optional
-        If set, drop duplicates based on list of column names, keeping last.
-        Only duplicates within the same row group to be written are identified.
-        This option requires a vaex dataframe.
-        If not set, default to ``None``.
-        If an empty list ``[]``, all columns are used to identify duplicates.
-
-    Yields
-    ------
-    pDataFrame
-        Chunk of data.
-
-    Notes
-    -----
-    - Because duplicates are identified within a same row group, it is
-      required to set ``sharp_on`` when using ``duplicates_on``, so that
-      duplicates all fall in a same row group. This implies that duplicates
-      have to share the same value in ``sharp_on`` column.
-
-    """
-    # TODO: implement 'group_as' (use of 'ordered_on' column) to replicate
-    #  row group 'boundaries' between 2 different data sets.
-    if max_row_group_size is None:
-        max_row_group_size = MAX_ROW_GROUP_SIZE
-    if isinstance(data, vDataFrame):
-        # Drop any possible lazy indexing, to make the length of data equals
-        # its filtered length.
-        data = data.extract()
-    elif sharp_on or isinstance(duplicates_on, list):
-        raise TypeError("vaex dataframe required when using 'sharp_on' and/or 'duplicates_on'.")
-    # TODO: if dropping duplicates over the full dataset with vaex, then remove
-    # this exception and subsequent conditional cases. It is not necessary any
-    # longer to relate 'sharp_on' and 'duplicates_on'.
-    if duplicates_on is not None:
-        if not sharp_on:
-            raise ValueError(
-                "duplicates are looked for row group per group. For this reason, "
-                "it is compulsory to set 'sharp_on' while setting 'duplicates_on'.",
-            )
-        elif isinstance(duplicates_on, list):
-            if duplicates_on and sharp_on not in duplicates_on:
-                # Case 'not an empty list', and 'ordered_on' not in.
-                duplicates_on.append(sharp_on)
-        elif duplicates_on != sharp_on:
-            # Case 'duplicates_on' is a single column name, but not
-            # 'sharp_on'.
-            duplicates_on = [duplicates_on, sharp_on]
-    n_rows = len(data)
-    if n_rows:
-        # Define bins to split into row groups.
-        # Acknowledging this piece of code to be an extract from fastparquet.
-        n_parts = (n_rows - 1) // max_row_group_size + 1
-        row_group_size = min((n_rows - 1) // n_parts + 1, n_rows)
-        starts = list(range(0, n_rows, row_group_size))
-    else:
-        # If n_rows=0
-        starts = [0]
-    if sharp_on:
-        # Adjust bins so that they do not end in the middle of duplicate values
-        # in `sharp_on` column.
-        # TODO: shorten this piece of code the day vaex accepts lists of
-        # integers. Line of code currently taken from
-        # vaex-core.vaex.dataframe.__getitem__ (L5230)
-        val_at_start = [
-            data.evaluate(sharp_on, idx, idx + 1, array_type="numpy")[0] for idx in starts
-        ]
-        # TODO: vaex searchsorted kind of broken. Re-try when solved?
-        # https://github.com/vaexio/vaex/issues/1674
-        # Doing with numpy.
-        starts = np_unique(np_searchsorted(data[sharp_on].to_numpy(), val_at_start)).tolist()
-    ends = starts[1:] + [None]
-    if isinstance(data, vDataFrame):
-        if duplicates_on is not None:
-            if duplicates_on == []:
-                columns = data.get_column_names()
-                duplicates_on = columns
-            for start, end in zip(starts, ends):
-                # TODO: possible 'drop_duplicates' directly in vaex as per:
-                # https://github.com/vaexio/vaex/pull/1623
-                # check if answer from
-                # https://github.com/vaexio/vaex/issues/1378
-                # If dropping duplicates with vaex, drop before the chunking.
-                # This removes then the constraints to have 'sharp_on' set and
-                # and in 'duplicates_on'. Duplicates are then dropped over the
-                # full dataset to be written.
-                yield data[start:end].to_pandas_df().drop_duplicates(duplicates_on, keep="last")
-        else:
-            for start, end in zip(starts, ends):
-                yield data[start:end].to_pandas_df()
-    else:
-        for start, end in zip(starts, ends):
-            yield data.iloc[start:end]
-
-
-def to_midx(idx: Index, levels: List[str] = None) -> MultiIndex:
-    """
-    Expand a pandas index into a multi-index.
-
-    Parameters
-    ----------
-    idx : Index
-        Pandas index, with values being string representations of tuples, for
-        instance, for one column, ``"('lev1','lev2')"``.
-    levels : List[str], optional
-        Names of levels to be used when creating the multi-index.
-        If not provided, a generic naming is used, ``[l0, l1, l2, ...]``.
-        If provided list is not long enough for the number of levels, it is
-        completed using a generic naming, ``[..., l4, l5]``.
-
-    Returns
-    -------
-    MultiIndex
-        Pandas multi-index.
-
-    Notes
-    -----
-    The accepted string representations of tuples is one typically obtained
-    after a roundtrip from pandas dataframe with a column multi-index to vaex
-    dataframe and back to pandas. The resulting column index is then a simple
-    one, with string representations for tuples.
-
-    If some column names have string representations of smaller tuples
-    (resulting in fewer index levels), these column names are appended with
-    empty strings '' as required to be of equal levels number than the longest
-    column names.
-
-    """
-    idx_temp = []
-    max_levels = 0
-    for val in idx:
-        try:
-            tup = literal_eval(val)
-            # Get max number of levels.
-            max_levels = max(len(tup), max_levels)
-            idx_temp.append(tup)
-        except ValueError:
-            # Keep value as string, enclosed in a tuple.
-            idx_temp.append(tuple(val))
-    # Generate names of levels if required.
-    diff = 0
-    if levels is None:
-        levels = []
-        len_lev = 0
-        diff = max_levels
-    elif (len_lev := len(levels)) < max_levels:
-        diff = max_levels - len_lev
-    if diff > 0:
-        levels.extend([f"l{i}" for i in range(len_lev, max_levels)])
-    # Equalize length of tuples.
-    tuples = [(*t, *[""] * n) if (n := (max_levels - len(t))) else t for t in idx_temp]
-    return MultiIndex.from_tuples(tuples, names=levels)
-
-
-def check_cmidx(cmidx: MultiIndex):
-    """
-    Check if column multi-index complies with fastparquet requirements.
-
-    Library fastparquet requires names for each level in a Multiindex.
-    Also, column names have to be tuple of string.
-
-    Parameters
-    ----------
-    cmidx : MultiIndex
-        MultiIndex to check.
-
-    """
-    # Check level names.
-    if None in cmidx.names:
-        raise ValueError(
-            "not possible to have level name set to None.",
-        )  # If an item of the column name is not a string, turn it into a string.
-    # Check column names.
-    for level in cmidx.levels:
-        for name in level:
-            if not isinstance(name, str):
-                raise TypeError(f"name {name} has to be of type 'string', not '{type(name)}'.")
-
-
-def write_metadata(
-    pf: ParquetFile,
-    metadata: Dict[str, str] = None,
-    md_key: Hashable = None,
-):
-    """
-    Write metadata to disk.
-
-    Update oups-specific metadata and merge to user-defined metadata.
-    "oups-specific" metadata is retrieved from OUPS_METADATA dict.
-
-    Parameters
-    ----------
-    pf : ParquetFile
-        ParquetFile which metadata are to be updated.
-    metadata : Dict[str, str], optional
-        User-defined key-value metadata to write, or update in dataset. Please
-        see fastparquet for updating logic in case of `None` value being used.
-    md_key: Hashable, optional
-        Key to retrieve data in ``OUPS_METADATA`` dict, and write it as
-        specific oups metadata in parquet file. If not provided, all data
-        in ``OUPS_METADATA`` dict are retrieved to be written.
-        This parameter is not compulsory. It is needed for instance in case
-        data is written at same time for several keys. Then the right metadata
-        for each key can be found thanks to this label.
-
-    Notes
-    -----
-    - Specific oups metadata are available in global variable ``OUPS_METADATA``.
-    - Once merged to ``new_metadata``, ``OUPS_METADATA`` is reset.
-    - Update strategy of oups specific metadata depends if key found in
-      ``OUPS_METADATA``metadata` is also found in already existing metadata,
-      as well as its value.
-
-      - If not found in existing, it is added.
-      - If found in existing, it is updated.
-      - If its value is `None`, it is not added, and if found in existing, it
-        is removed from existing.
-
-    """
-    if OUPS_METADATA and md_key and md_key in OUPS_METADATA:
-        # If 'md_key' is 'None', then no metadata from ``OUPS_METADATA`` is
-        # retrieved.
-        new_oups_spec_md = OUPS_METADATA[md_key]
-        if OUPS_METADATA_KEY in (existing_metadata := pf.key_value_metadata):
-            # Case 'append' to existing metadata.
-            # oups-specific metadata is expected to be a dict itself.
-            # To be noticed, 'md_key' is not written itself in metadata to
-            # disk.
-            existing_oups_spec_md = loads(existing_metadata[OUPS_METADATA_KEY])
-            for key, value in new_oups_spec_md.items():
-                if key in existing_oups_spec_md:
-                    if value is None:
-                        # Case 'remove'.
-                        del existing_oups_spec_md[key]
-                    else:
-                        # Case 'update'.
-                        existing_oups_spec_md[key] = value
-                elif value:
-                    # Case 'add'.
-                    existing_oups_spec_md[key] = value
-        else:
-            existing_oups_spec_md = new_oups_spec_md
-        del OUPS_METADATA[md_key]
-
-        if metadata:
-            metadata[OUPS_METADATA_KEY] = dumps(existing_oups_spec_md)
-        else:
-            metadata = {OUPS_METADATA_KEY: dumps(existing_oups_spec_md)}
-
-    if metadata:
-        update_custom_metadata(pf, metadata)
-    pf._write_common_metadata()
-
-
-def write(
-    dirpath: str,
-    data: Union[pDataFrame, vDataFrame],
-    max_row_group_size: int = None,
-    compression: str = COMPRESSION,
-    cmidx_expand: bool = False,
-    cmidx_levels: List[str] = None,
-    ordered_on: Union[str, Tuple[str]] = None,
-    duplicates_on: Union[str, List[str], List[Tuple[str]]] = None,
-    max_nirgs: int = None,
-    metadata: Dict[str, str] = None,
-    md_key: Hashable = None,
-):
-    """
-    Write data to disk at location specified by path.
-
-    Parameters
-    ----------
-    dirpath : str
-        Directory where writing pandas dataframe.
-    data : Union[pDataFrame, vDataFrame]
-        Data to write.
-    max_row_group_size : int, optional
-        Max row group size. If not set, default to ``6_345_000``, which for a
-        dataframe with 6 columns of ``float64`` or ``int64`` results in a
-        memory footprint (RAM) of about 290MB.
-    compression : str, default SNAPPY
-        Algorithm to use for compressing data. This parameter is fastparquet
-        specific. Please see fastparquet documentation for more information.
-    cmidx_expand : bool, default False
-        If `True`, expand column index into a column multi-index.
-        This parameter is only used at creation of the dataset. Once column
-        names are set, they cannot be modified by use of this parameter.
-    cmidx_levels : List[str], optional
-        Names of levels to be used when expanding column names into a
-        multi-index. If not provided, levels are given names 'l1', 'l2', ...
-    ordered_on : Union[str, Tuple[str]] optional
-        Name of the column with respect to which dataset is in ascending order.
-        If column multi-index, name of the column is a tuple.
-        This parameter is optional, and required so that data overlaps between
-        new data and existing recorded row groups can be identified.
-        This parameter is compulsory when ``duplicates_on`` is used.
-        If not set, default to ``None``.
-        It has two effects:
-
-          - it allows knowing 'where' to insert new data into existing data,
-            i.e. completing or correcting past records (but it does not allow
-            to remove prior data).
-          - it ensures that two consecutive row groups do not have duplicate
-            values in column defined by ``ordered_on`` (only in row groups to
-            be written). This implies that all possible duplicates in
-            ``ordered_on`` column will lie in the same row group.
-
-    duplicates_on : Union[str, List[str], List[Tuple[str]]], optional
-        Column names according which 'row duplicates' can be identified (i.e.
-        rows sharing same values on these specific columns) so as to drop
-        them. Duplicates are only identified in new data, and existing
-        recorded row groups that overlap with new data.
-        If duplicates are dropped, only last is kept.
-        To identify row duplicates using all columns, empty list ``[]`` can be
-        used instead of all columns names.
-        If not set, default to ``None``, meaning no row is dropped.
-    max_nirgs : int, optional
-        Max expected number of 'incomplete' row groups. A 'complete' row group
-        is one which size is 'close to' ``max_row_group_size`` (>=90%).
-        To evaluate number of 'incomplete' row groups, only those at the end of
-        an existing dataset are accounted for. 'Incomplete' row groups in the
-        middle of 'complete' row groups are not accounted for (they can be
-        created by insertion of new data 'in the middle' of existing data).
-        If not set, default to ``None``.
-
-          - ``None`` value induces no coalescing of row groups. If there is no
-            drop of duplicates, new data is systematically appended.
-          - A value of ``0`` or ``1`` means that new data should systematically
-            be merged to the last existing one to 'complete' it (if it is not
-            'complete' already).
-    metadata : Dict[str, str], optional
-        Key-value metadata to write, or update in dataset. Please see
-        fastparquet for updating logic in case of `None` value being used.
-    md_key: Hashable, optional
-        Key to retrieve data in ``OUPS_METADATA`` dict, and write it as
-        specific oups metadata in parquet file. If not provided, all data
-        in ``OUPS_METADATA`` dict are retrieved to be written.
-
-    Notes
-    -----
-    - When writing a dataframe with this function,
-
-      - index of dataframe is not written to disk.
-      - parquet file scheme is 'hive' (one row group per parquet file).
-
-    - Coalescing incomplete row groups is triggered depending 2 conditions,
-      either actual number of incomplete row groups is larger than ``max_nirgs``
-      or number of rows for all incomplete row groups (at the end of the
-      dataset) is enough to make a new complete row group (reaches
-      ``max_row_group_size``). This latter assessment is however only triggered
-      if ``max_nirgs`` is set. Otherwise, new data is simply appended, without
-      prior check.
-    - When ``duplicates_on`` is set, duplicate search is made row group to be
-      written per row group to be written. A `row group to be written` is made
-      from the merge between new data, and existing recorded row groups which
-      overlap. For this reason ``ordered_on`` parameter is compulsory when
-      using ``duplicates_on``, so as to be able to position new data with
-      respect to existing row groups and also to cluster this data (new and
-      overlapping recorded) into row group which have distinct values in
-      ``ordered_on`` column. If 2 rows are duplicates according values in
-      indicated columns but are not in the same row group, first duplicates
-      will not be dropped.
-    - As per logic of previous comment, duplicates need to be gathered by
-      row group to be identified, they need consequently to share the same
-      `index`, defined by the value in ``ordered_on``. Extending this logic,
-      ``ordered_on`` is added to ``duplicates_on`` if not already part of it.
-    - For simple data appending, i.e. without need to check where to insert
-      data and without need to drop duplicates, it is advised to keep
-      ``ordered_on`` and ``duplicates_on`` parameters set to ``None`` as these
-      parameters will trigger unnecessary evaluations.
-
-    """
-    if ordered_on is not None:
-        if isinstance(ordered_on, tuple):
-            raise TypeError(f"tuple for {ordered_on} not yet supported.")
-        # Check 'ordered_on' column is within input dataframe.
-        if isinstance(data, pDataFrame):
-            # pandas case
-            all_cols = data.columns
-        else:
-            # vaex case
-            all_cols = data.get_column_names()
-        if ordered_on not in all_cols:
-            raise ValueError(f"column '{ordered_on}' does not exist in input data.")
-    if os_path.isdir(dirpath) and any(file.endswith(".parquet") for file in os_listdir(dirpath)):
-        # Case updating an existing dataset.
-        # Identify overlaps in row groups between new data and recorded data.
-        # Recorded row group start and end indexes.
-        rrg_start_idx, rrg_end_idx = None, None
-        pf = ParquetFile(dirpath)
-        n_rrgs = len(pf.row_groups)
-        if duplicates_on is not None:
-            if not ordered_on:
-                raise ValueError(
-                    "duplicates are looked for over the overlap between new data and existing data. "
-                    "This overlap being identified thanks to 'ordered_on', "
-                    "it is compulsory to set 'ordered_on' while setting 'duplicates_on'.",
-                )
-            # Enforce 'ordered_on' in 'duplicates_on', as per logic of
-            # duplicate identification restricted to the data overlap between new
-            # data and existing data. This overlap being identified thanks to
-            # 'ordered_on', it implies that duplicate rows can be identified being
-            # so at the condition they share the same value in 'ordered_on' (among
-            # other columns).
-            elif isinstance(duplicates_on, list):
-                if duplicates_on and ordered_on not in duplicates_on:
-                    # Case 'not an empty list', and 'ordered_on' not in.
-                    duplicates_on.append(ordered_on)
-            elif duplicates_on != ordered_on:
-                # Case 'duplicates_on' is a single column name, but not
-                # 'ordered_on'.
-                duplicates_on = [duplicates_on, ordered_on]
-        if ordered_on is not None:
-            # Get 'rrg_start_idx' & 'rrg_end_idx'.
-            if isinstance(data, pDataFrame):
-                # Case 'pandas'.
-                start = data[ordered_on].iloc[0]
-                end = data[ordered_on].iloc[-1]
-            else:
-                # Case 'vaex'.
-                start = data[ordered_on][:0].to_numpy()[0]
-                end = data[ordered_on][-1:].to_numpy()[0]
-            rrgs_idx = filter_row_groups(
-                pf,
-                [[(ordered_on, ">=", start), (ordered_on, "<=", end)]],
-                as_idx=True,
-            )
-            if rrgs_idx:
-                if len(rrgs_idx) == 1:
-                    rrg_start_idx = rrgs_idx[0]
-                else:
-                    rrg_start_idx = rrgs_idx[0]
-                    # For slicing, 'rrg_end_idx' is increased by 1.
-                    rrg_end_idx = rrgs_idx[-1] + 1
-                    if rrg_end_idx == n_rrgs:
-                        rrg_end_idx = None
-        if max_nirgs is not None:
-            # Number of incomplete row groups at end of recorded data.
-            # Initialize number of rows with number to be written.
-            total_rows_in_irgs = len(data)
-            rrg_start_idx_tmp = n_rrgs - 1
-            min_row_group_size = int(max_row_group_size * 0.9)
-            while pf[rrg_start_idx_tmp].count() <= min_row_group_size and rrg_start_idx_tmp >= 0:
-                total_rows_in_irgs += pf[rrg_start_idx_tmp].count()
-                rrg_start_idx_tmp -= 1
-            rrg_start_idx_tmp += 1
-            # Confirm or not coalescing of incomplete row groups.
-            n_irgs = n_rrgs - rrg_start_idx_tmp
-            if total_rows_in_irgs >= max_row_group_size or n_irgs >= max_nirgs:
-                if rrg_start_idx and (
-                    not rrg_end_idx or (rrg_end_idx and rrg_start_idx_tmp < rrg_end_idx)
-                ):
-                    # 1st case checked: case 'ordered_on' is used with potential
-                    # insertion of new data in existing one, in row groups not at
-                    # the tail, in which case coalescing of end data would not be
-                    # performed.
-                    rrg_start_idx = min(rrg_start_idx_tmp, rrg_start_idx)
-                elif not rrg_end_idx:
-                    # 2nd case checked: case 'ordered_on' is not used. New data is
-                    # necessarily appended in this case.
-                    rrg_start_idx = rrg_start_idx_tmp
-        if rrg_start_idx is None:
-            # Case 'appending' (no overlap with recorded data identified).
-            # 'coalesce' has possibly been requested but not needed, hence no row
-            # groups removal in existing ones.
-            iter_data = iter_dataframe(data, max_row_group_size)
-            pf.write_row_groups(
-                data=iter_data,
-                row_group_offsets=None,
-                sort_pnames=False,
-                compression=compression,
-                write_fmd=False,
-            )
-        else:
-            # Case 'updating' (with existing row groups removal).
-            # Read row groups that have impacted data as a vaex dataframe.
-            overlapping_rgs = pf[rrg_start_idx:rrg_end_idx].row_groups
-            files = [pf.row_group_filename(rg) for rg in overlapping_rgs]
-            recorded = open_many(files)
-            if isinstance(data, pDataFrame):
-                # Convert to vaex.
-                data = from_pandas(data)
-            # For concatenation of numpy 'timedelta64' to arrow 'time64', check
-            # https://github.com/vaexio/vaex/issues/2024
-            data = recorded.concat(data)
-            if ordered_on:
-                data = data.sort(by=ordered_on)
-            iter_data = iter_dataframe(
-                data,
-                max_row_group_size=max_row_group_size,
-                sharp_on=ordered_on,
-                duplicates_on=duplicates_on,
-            )
-            # Write.
-            pf.write_row_groups(
-                data=iter_data,
-                row_group_offsets=None,
-                sort_pnames=False,
-                compression=compression,
-                write_fmd=False,
-            )
-            # Remove row groups of data that is overlapping.
-            pf.remove_row_groups(overlapping_rgs, write_fmd=False)
-            if rrg_end_idx is not None:
-                # New data has been inserted in the middle of existing row groups.
-                # Sorting row groups based on 'max' in 'ordered_on'.
-                ordered_on_idx = pf.columns.index(ordered_on)
-                pf.fmd.row_groups = sorted(
-                    pf.fmd.row_groups,
-                    key=lambda rg: statistics(rg.columns[ordered_on_idx])["max"],
-                )
-            # Rename partition files, and write fmd.
-            pf._sort_part_names(write_fmd=False)
-    else:
-        # Case initiating a new dataset.
-        iter_data = iter_dataframe(data, max_row_group_size)
-        chunk = next(iter_data)
-        if cmidx_expand:
-            chunk.columns = to_midx(chunk.columns, cmidx_levels)
-        # In case multi-index is used, check that it complies with fastparquet
-        # limitations.
-        if isinstance(chunk.columns, MultiIndex):
-            check_cmidx(chunk.columns)
-        fp_write(
-            dirpath,
-            chunk,
-            row_group_offsets=max_row_group_size,
-            compression=compression,
-            file_scheme="hive",
-            write_index=False,
-            append=False,
-        )
-        # Re-open to write remaining chunks.
-        pf = ParquetFile(dirpath)
-        # Appending remaining chunks.
-        pf.write_row_groups(
-            data=iter_data,
-            row_group_offsets=None,
-            sort_pnames=False,
-            compression=compression,
-            write_fmd=False,
-        )
-    # Manage and write metadata.
-    write_metadata(pf=pf, metadata=metadata, md_key=md_key)
+#!/usr/bin/env python3
+"""
+Created on Wed Dec  6 22:30:00 2021.
+
+@author: yoh
+
+"""
+from ast import literal_eval
+from os import listdir as os_listdir
+from os import path as os_path
+from pickle import dumps
+from pickle import loads
+from typing import Dict, Hashable, List, Tuple, Union
+
+from fastparquet import ParquetFile
+from fastparquet import write as fp_write
+from fastparquet.api import filter_row_groups
+from fastparquet.api import statistics
+from fastparquet.util import update_custom_metadata
+from numpy import searchsorted as np_searchsorted
+from numpy import unique as np_unique
+from pandas import DataFrame as pDataFrame
+from pandas import Index
+from pandas import MultiIndex
+from vaex import from_pandas
+from vaex import open_many
+from vaex.dataframe import DataFrame as vDataFrame
+
+
+COMPRESSION = "SNAPPY"
+MAX_ROW_GROUP_SIZE = 6_345_000
+KEY_MAX_ROW_GROUP_SIZE = "max_row_group_size"
+KEY_DUPLICATES_ON = "duplicates_on"
+# Notes to any dev.
+# Store any oups-specific metadata in this dict, such as oups-based application
+# metadata.
+# When appending new data, use `OUPS_METADATA.update()`.
+# `OUPS_METADATA` can be used as a buffer, to keep in memory the metadata to
+# be updated, till a write is triggered.
+# Metadata itself should be within a nested dict, referred to by a `md_key`.
+# By use of a `md_key`, management in parallel of metadata for several keys is
+# possible (i.e. several dataset in difference `ParquetFile`).
+OUPS_METADATA = {}
+# In a fastparquet `ParquetFile`, oups-specific metadata is stored as value for
+# key `OUPS_METADATA_KEY`.
+OUPS_METADATA_KEY = "oups"
+
+
+def iter_dataframe(
+    data: Union[pDataFrame, vDataFrame],
+    max_row_group_size: int = None,
+    sharp_on: str = None,
+    duplicates_on: Union[str, List[str]] = None,
+):
+    """
+    Yield dataframe chunks.
+
+    Parameters
+    ----------
+    data : Union[pDataFrame, vDataFrame]
+        Data to split in row groups.
+    max_row_group_size : int, optional
+        Max size of row groups. It is a max as duplicates are dropped by row
+        group to be written, hereby reducing the row group size (if
+        ``duplicates_on`` parameter is set).
+        If not set, default to ``6_345_000``.
+    sharp_on : str, optional
+        Name of column where to check that ends of bins (which split the data
+        to be written) do not fall in the middle of duplicate values.
+        This parameter is required when ``duplicates_on`` is used.
+        This option requires a vaex dataframe.
+        If not set, default to ``None``.
+    duplicates_on : Union[str, List[str]], optional
+        If set, drop duplicates based on list of column names, keeping last.
+        Only duplicates within the same row group to be written are identified.
+        This option requires a vaex dataframe.
+        If not set, default to ``None``.
+        If an empty list ``[]``, all columns are used to identify duplicates.
+
+    Yields
+    ------
+    pDataFrame
+        Chunk of data.
+
+    Notes
+    -----
+    - Because duplicates are identified within a same row group, it is
+      required to set ``sharp_on`` when using ``duplicates_on``, so that
+      duplicates all fall in a same row group. This implies that duplicates
+      have to share the same value in ``sharp_on`` column.
+
+    """
+    # TODO: implement 'group_as' (use of 'ordered_on' column) to replicate
+    #  row group 'boundaries' between 2 different data sets.
+    if max_row_group_size is None:
+        max_row_group_size = MAX_ROW_GROUP_SIZE
+    if isinstance(data, vDataFrame):
+        # Drop any possible lazy indexing, to make the length of data equals
+        # its filtered length.
+        data = data.extract()
+    elif sharp_on or isinstance(duplicates_on, list):
+        raise TypeError("vaex dataframe required when using 'sharp_on' and/or 'duplicates_on'.")
+    # TODO: if dropping duplicates over the full dataset with vaex, then remove
+    # this exception and subsequent conditional cases. It is not necessary any
+    # longer to relate 'sharp_on' and 'duplicates_on'.
+    if duplicates_on is not None:
+        if not sharp_on:
+            raise ValueError(
+                "duplicates are looked for row group per group. For this reason, "
+                "it is compulsory to set 'sharp_on' while setting 'duplicates_on'.",
+            )
+        elif isinstance(duplicates_on, list):
+            if duplicates_on and sharp_on not in duplicates_on:
+                # Case 'not an empty list', and 'ordered_on' not in.
+                duplicates_on.append(sharp_on)
+        elif duplicates_on != sharp_on:
+            # Case 'duplicates_on' is a single column name, but not
+            # 'sharp_on'.
+            duplicates_on = [duplicates_on, sharp_on]
+    n_rows = len(data)
+    if n_rows:
+        # Define bins to split into row groups.
+        # Acknowledging this piece of code to be an extract from fastparquet.
+        n_parts = (n_rows - 1) // max_row_group_size + 1
+        row_group_size = min((n_rows - 1) // n_parts + 1, n_rows)
+        starts = list(range(0, n_rows, row_group_size))
+    else:
+        # If n_rows=0
+        starts = [0]
+    if sharp_on:
+        # Adjust bins so that they do not end in the middle of duplicate values
+        # in `sharp_on` column.
+        # TODO: shorten this piece of code the day vaex accepts lists of
+        # integers. Line of code currently taken from
+        # vaex-core.vaex.dataframe.__getitem__ (L5230)
+        val_at_start = [
+            data.evaluate(sharp_on, idx, idx + 1, array_type="numpy")[0] for idx in starts
+        ]
+        # TODO: vaex searchsorted kind of broken. Re-try when solved?
+        # https://github.com/vaexio/vaex/issues/1674
+        # Doing with numpy.
+        starts = np_unique(np_searchsorted(data[sharp_on].to_numpy(), val_at_start)).tolist()
+    ends = starts[1:] + [None]
+    if isinstance(data, vDataFrame):
+        if duplicates_on is not None:
+            if duplicates_on == []:
+                columns = data.get_column_names()
+                duplicates_on = columns
+            for start, end in zip(starts, ends):
+                # TODO: possible 'drop_duplicates' directly in vaex as per:
+                # https://github.com/vaexio/vaex/pull/1623
+                # check if answer from
+                # https://github.com/vaexio/vaex/issues/1378
+                # If dropping duplicates with vaex, drop before the chunking.
+                # This removes then the constraints to have 'sharp_on' set and
+                # and in 'duplicates_on'. Duplicates are then dropped over the
+                # full dataset to be written.
+                yield data[start:end].to_pandas_df().drop_duplicates(duplicates_on, keep="last")
+        else:
+            for start, end in zip(starts, ends):
+                yield data[start:end].to_pandas_df()
+    else:
+        for start, end in zip(starts, ends):
+            yield data.iloc[start:end]
+
+
+def to_midx(idx: Index, levels: List[str] = None) -> MultiIndex:
+    """
+    Expand a pandas index into a multi-index.
+
+    Parameters
+    ----------
+    idx : Index
+        Pandas index, with values being string representations of tuples, for
+        instance, for one column, ``"('lev1','lev2')"``.
+    levels : List[str], optional
+        Names of levels to be used when creating the multi-index.
+        If not provided, a generic naming is used, ``[l0, l1, l2, ...]``.
+        If provided list is not long enough for the number of levels, it is
+        completed using a generic naming, ``[..., l4, l5]``.
+
+    Returns
+    -------
+    MultiIndex
+        Pandas multi-index.
+
+    Notes
+    -----
+    The accepted string representations of tuples is one typically obtained
+    after a roundtrip from pandas dataframe with a column multi-index to vaex
+    dataframe and back to pandas. The resulting column index is then a simple
+    one, with string representations for tuples.
+
+    If some column names have string representations of smaller tuples
+    (resulting in fewer index levels), these column names are appended with
+    empty strings '' as required to be of equal levels number than the longest
+    column names.
+
+    """
+    idx_temp = []
+    max_levels = 0
+    for val in idx:
+        try:
+            tup = literal_eval(val)
+            # Get max number of levels.
+            max_levels = max(len(tup), max_levels)
+            idx_temp.append(tup)
+        except ValueError:
+            # Keep value as string, enclosed in a tuple.
+            idx_temp.append(tuple(val))
+    # Generate names of levels if required.
+    diff = 0
+    if levels is None:
+        levels = []
+        len_lev = 0
+        diff = max_levels
+    elif (len_lev := len(levels)) < max_levels:
+        diff = max_levels - len_lev
+    if diff > 0:
+        levels.extend([f"l{i}" for i in range(len_lev, max_levels)])
+    # Equalize length of tuples.
+    tuples = [(*t, *[""] * n) if (n := (max_levels - len(t))) else t for t in idx_temp]
+    return MultiIndex.from_tuples(tuples, names=levels)
+
+
+def check_cmidx(cmidx: MultiIndex):
+    """
+    Check if column multi-index complies with fastparquet requirements.
+
+    Library fastparquet requires names for each level in a Multiindex.
+    Also, column names have to be tuple of string.
+
+    Parameters
+    ----------
+    cmidx : MultiIndex
+        MultiIndex to check.
+
+    """
+    # Check level names.
+    if None in cmidx.names:
+        raise ValueError(
+            "not possible to have level name set to None.",
+        )  # If an item of the column name is not a string, turn it into a string.
+    # Check column names.
+    for level in cmidx.levels:
+        for name in level:
+            if not isinstance(name, str):
+                raise TypeError(f"name {name} has to be of type 'string', not '{type(name)}'.")
+
+
+def write_metadata(
+    pf: ParquetFile,
+    metadata: Dict[str, str] = None,
+    md_key: Hashable = None,
+):
+    """
+    Write metadata to disk.
+
+    Update oups-specific metadata and merge to user-defined metadata.
+    "oups-specific" metadata is retrieved from OUPS_METADATA dict.
+
+    Parameters
+    ----------
+    pf : ParquetFile
+        ParquetFile which metadata are to be updated.
+    metadata : Dict[str, str], optional
+        User-defined key-value metadata to write, or update in dataset. Please
+        see fastparquet for updating logic in case of `None` value being used.
+    md_key: Hashable, optional
+        Key to retrieve data in ``OUPS_METADATA`` dict, and write it as
+        specific oups metadata in parquet file. If not provided, all data
+        in ``OUPS_METADATA`` dict are retrieved to be written.
+        This parameter is not compulsory. It is needed for instance in case
+        data is written at same time for several keys. Then the right metadata
+        for each key can be found thanks to this label.
+
+    Notes
+    -----
+    - Specific oups metadata are available in global variable ``OUPS_METADATA``.
+    - Once merged to ``new_metadata``, ``OUPS_METADATA`` is reset.
+    - Update strategy of oups specific metadata depends if key found in
+      ``OUPS_METADATA``metadata` is also found in already existing metadata,
+      as well as its value.
+
+      - If not found in existing, it is added.
+      - If found in existing, it is updated.
+      - If its value is `None`, it is not added, and if found in existing, it
+        is removed from existing.
+
+    """
+    if OUPS_METADATA and md_key and md_key in OUPS_METADATA:
+        # If 'md_key' is 'None', then no metadata from ``OUPS_METADATA`` is
+        # retrieved.
+        new_oups_spec_md = OUPS_METADATA[md_key]
+        if OUPS_METADATA_KEY in (existing_metadata := pf.key_value_metadata):
+            # Case 'append' to existing metadata.
+            # oups-specific metadata is expected to be a dict itself.
+            # To be noticed, 'md_key' is not written itself in metadata to
+            # disk.
+            existing_oups_spec_md = loads(existing_metadata[OUPS_METADATA_KEY])
+            for key, value in new_oups_spec_md.items():
+                if key in existing_oups_spec_md:
+                    if value is None:
+                        # Case 'remove'.
+                        del existing_oups_spec_md[key]
+                    else:
+                        # Case 'update'.
+                        existing_oups_spec_md[key] = value
+                elif value:
+                    # Case 'add'.
+                    existing_oups_spec_md[key] = value
+        else:
+            existing_oups_spec_md = new_oups_spec_md
+        del OUPS_METADATA[md_key]
+
+        if metadata:
+            metadata[OUPS_METADATA_KEY] = dumps(existing_oups_spec_md)
+        else:
+            metadata = {OUPS_METADATA_KEY: dumps(existing_oups_spec_md)}
+
+    if metadata:
+        update_custom_metadata(pf, metadata)
+    pf._write_common_metadata()
+
+
+def write(
+    dirpath: str,
+    data: Union[pDataFrame, vDataFrame],
+    max_row_group_size: int = None,
+    compression: str = COMPRESSION,
+    cmidx_expand: bool = False,
+    cmidx_levels: List[str] = None,
+    ordered_on: Union[str, Tuple[str]] = None,
+    duplicates_on: Union[str, List[str], List[Tuple[str]]] = None,
+    max_nirgs: int = None,
+    metadata: Dict[str, str] = None,
+    md_key: Hashable = None,
+):
+    """
+    Write data to disk at location specified by path.
+
+    Parameters
+    ----------
+    dirpath : str
+        Directory where writing pandas dataframe.
+    data : Union[pDataFrame, vDataFrame]
+        Data to write.
+    max_row_group_size : int, optional
+        Max row group size. If not set, default to ``6_345_000``, which for a
+        dataframe with 6 columns of ``float64`` or ``int64`` results in a
+        memory footprint (RAM) of about 290MB.
+    compression : str, default SNAPPY
+        Algorithm to use for compressing data. This parameter is fastparquet
+        specific. Please see fastparquet documentation for more information.
+    cmidx_expand : bool, default False
+        If `True`, expand column index into a column multi-index.
+        This parameter is only used at creation of the dataset. Once column
+        names are set, they cannot be modified by use of this parameter.
+    cmidx_levels : List[str], optional
+        Names of levels to be used when expanding column names into a
+        multi-index. If not provided, levels are given names 'l1', 'l2', ...
+    ordered_on : Union[str, Tuple[str]] optional
+        Name of the column with respect to which dataset is in ascending order.
+        If column multi-index, name of the column is a tuple.
+        This parameter is optional, and required so that data overlaps between
+        new data and existing recorded row groups can be identified.
+        This parameter is compulsory when ``duplicates_on`` is used.
+        If not set, default to ``None``.
+        It has two effects:
+
+          - it allows knowing 'where' to insert new data into existing data,
+            i.e. completing or correcting past records (but it does not allow
+            to remove prior data).
+          - it ensures that two consecutive row groups do not have duplicate
+            values in column defined by ``ordered_on`` (only in row groups to
+            be written). This implies that all possible duplicates in
+            ``ordered_on`` column will lie in the same row group.
+
+    duplicates_on : Union[str, List[str], List[Tuple[str]]], optional
+        Column names according which 'row duplicates' can be identified (i.e.
+        rows sharing same values on these specific columns) so as to drop
+        them. Duplicates are only identified in new data, and existing
+        recorded row groups that overlap with new data.
+        If duplicates are dropped, only last is kept.
+        To identify row duplicates using all columns, empty list ``[]`` can be
+        used instead of all columns names.
+        If not set, default to ``None``, meaning no row is dropped.
+    max_nirgs : int, optional
+        Max expected number of 'incomplete' row groups. A 'complete' row group
+        is one which size is 'close to' ``max_row_group_size`` (>=90%).
+        To evaluate number of 'incomplete' row groups, only those at the end of
+        an existing dataset are accounted for. 'Incomplete' row groups in the
+        middle of 'complete' row groups are not accounted for (they can be
+        created by insertion of new data 'in the middle' of existing data).
+        If not set, default to ``None``.
+
+          - ``None`` value induces no coalescing of row groups. If there is no
+            drop of duplicates, new data is systematically appended.
+          - A value of ``0`` or ``1`` means that new data should systematically
+            be merged to the last existing one to 'complete' it (if it is not
+            'complete' already).
+    metadata : Dict[str, str], optional
+        Key-value metadata to write, or update in dataset. Please see
+        fastparquet for updating logic in case of `None` value being used.
+    md_key: Hashable, optional
+        Key to retrieve data in ``OUPS_METADATA`` dict, and write it as
+        specific oups metadata in parquet file. If not provided, all data
+        in ``OUPS_METADATA`` dict are retrieved to be written.
+
+    Notes
+    -----
+    - When writing a dataframe with this function,
+
+      - index of dataframe is not written to disk.
+      - parquet file scheme is 'hive' (one row group per parquet file).
+
+    - Coalescing incomplete row groups is triggered depending 2 conditions,
+      either actual number of incomplete row groups is larger than ``max_nirgs``
+      or number of rows for all incomplete row groups (at the end of the
+      dataset) is enough to make a new complete row group (reaches
+      ``max_row_group_size``). This latter assessment is however only triggered
+      if ``max_nirgs`` is set. Otherwise, new data is simply appended, without
+      prior check.
+    - When ``duplicates_on`` is set, duplicate search is made row group to be
+      written per row group to be written. A `row group to be written` is made
+      from the merge between new data, and existing recorded row groups which
+      overlap. For this reason ``ordered_on`` parameter is compulsory when
+      using ``duplicates_on``, so as to be able to position new data with
+      respect to existing row groups and also to cluster this data (new and
+      overlapping recorded) into row group which have distinct values in
+      ``ordered_on`` column. If 2 rows are duplicates according values in
+      indicated columns but are not in the same row group, first duplicates
+      will not be dropped.
+    - As per logic of previous comment, duplicates need to be gathered by
+      row group to be identified, they need consequently to share the same
+      `index`, defined by the value in ``ordered_on``. Extending this logic,
+      ``ordered_on`` is added to ``duplicates_on`` if not already part of it.
+    - For simple data appending, i.e. without need to check where to insert
+      data and without need to drop duplicates, it is advised to keep
+      ``ordered_on`` and ``duplicates_on`` parameters set to ``None`` as these
+      parameters will trigger unnecessary evaluations.
+
+    """
+    if ordered_on is not None:
+        if isinstance(ordered_on, tuple):
+            raise TypeError(f"tuple for {ordered_on} not yet supported.")
+        # Check 'ordered_on' column is within input dataframe.
+        if isinstance(data, pDataFrame):
+            # pandas case
+            all_cols = data.columns
+        else:
+            # vaex case
+            all_cols = data.get_column_names()
+        if ordered_on not in all_cols:
+            raise ValueError(f"column '{ordered_on}' does not exist in input data.")
+    if os_path.isdir(dirpath) and any(file.endswith(".parquet") for file in os_listdir(dirpath)):
+        # Case updating an existing dataset.
+        # Identify overlaps in row groups between new data and recorded data.
+        # Recorded row group start and end indexes.
+        rrg_start_idx, rrg_end_idx = None, None
+        pf = ParquetFile(dirpath)
+        n_rrgs = len(pf.row_groups)
+        if duplicates_on is not None:
+            if not ordered_on:
+                raise ValueError(
+                    "duplicates are looked for over the overlap between new data and existing data. "
+                    "This overlap being identified thanks to 'ordered_on', "
+                    "it is compulsory to set 'ordered_on' while setting 'duplicates_on'.",
+                )
+            # Enforce 'ordered_on' in 'duplicates_on', as per logic of
+            # duplicate identification restricted to the data overlap between new
+            # data and existing data. This overlap being identified thanks to
+            # 'ordered_on', it implies that duplicate rows can be identified being
+            # so at the condition they share the same value in 'ordered_on' (among
+            # other columns).
+            elif isinstance(duplicates_on, list):
+                if duplicates_on and ordered_on not in duplicates_on:
+                    # Case 'not an empty list', and 'ordered_on' not in.
+                    duplicates_on.append(ordered_on)
+            elif duplicates_on != ordered_on:
+                # Case 'duplicates_on' is a single column name, but not
+                # 'ordered_on'.
+                duplicates_on = [duplicates_on, ordered_on]
+        if ordered_on is not None:
+            # Get 'rrg_start_idx' & 'rrg_end_idx'.
+            if isinstance(data, pDataFrame):
+                # Case 'pandas'.
+                start = data[ordered_on].iloc[0]
+                end = data[ordered_on].iloc[-1]
+            else:
+                # Case 'vaex'.
+                start = data[ordered_on][:0].to_numpy()[0]
+                end = data[ordered_on][-1:].to_numpy()[0]
+            rrgs_idx = filter_row_groups(
+                pf,
+                [[(ordered_on, ">=", start), (ordered_on, "<=", end)]],
+                as_idx=True,
+            )
+            if rrgs_idx:
+                if len(rrgs_idx) == 1:
+                    rrg_start_idx = rrgs_idx[0]
+                else:
+                    rrg_start_idx = rrgs_idx[0]
+                    # For slicing, 'rrg_end_idx' is increased by 1.
+                    rrg_end_idx = rrgs_idx[-1] + 1
+                    if rrg_end_idx == n_rrgs:
+                        rrg_end_idx = None
+        if max_nirgs is not None:
+            # Number of incomplete row groups at end of recorded data.
+            # Initialize number of rows with number to be written.
+            total_rows_in_irgs = len(data)
+            rrg_start_idx_tmp = n_rrgs - 1
+            min_row_group_size = int(max_row_group_size * 0.9)
+            while pf[rrg_start_idx_tmp].count() <= min_row_group_size and rrg_start_idx_tmp >= 0:
+                total_rows_in_irgs += pf[rrg_start_idx_tmp].count()
+                rrg_start_idx_tmp -= 1
+            rrg_start_idx_tmp += 1
+            # Confirm or not coalescing of incomplete row groups.
+            n_irgs = n_rrgs - rrg_start_idx_tmp
+            if total_rows_in_irgs >= max_row_group_size or n_irgs >= max_nirgs:
+                if rrg_start_idx is not None and (
+                    not rrg_end_idx or (rrg_end_idx and rrg_start_idx_tmp < rrg_end_idx)
+                ):
+                    # 1st case checked: case 'ordered_on' is used with potential
+                    # insertion of new data in existing one, in row groups not at
+                    # the tail, in which case coalescing of end data would not be
+                    # performed.
+                    rrg_start_idx = min(rrg_start_idx_tmp, rrg_start_idx)
+                elif n_irgs and not rrg_end_idx:
+                    # 2nd case checked: case 'ordered_on' is not used. New data is
+                    # necessarily appended in this case.
+                    rrg_start_idx = rrg_start_idx_tmp
+        if rrg_start_idx is None:
+            # Case 'appending' (no overlap with recorded data identified).
+            # 'coalesce' has possibly been requested but not needed, hence no row
+            # groups removal in existing ones.
+            iter_data = iter_dataframe(data, max_row_group_size)
+            pf.write_row_groups(
+                data=iter_data,
+                row_group_offsets=None,
+                sort_pnames=False,
+                compression=compression,
+                write_fmd=False,
+            )
+        else:
+            # Case 'updating' (with existing row groups removal).
+            # Read row groups that have impacted data as a vaex dataframe.
+            overlapping_rgs = pf[rrg_start_idx:rrg_end_idx].row_groups
+            files = [pf.row_group_filename(rg) for rg in overlapping_rgs]
+            recorded = open_many(files)
+            if isinstance(data, pDataFrame):
+                # Convert to vaex.
+                data = from_pandas(data)
+            # For concatenation of numpy 'timedelta64' to arrow 'time64', check
+            # https://github.com/vaexio/vaex/issues/2024
+            data = recorded.concat(data)
+            if ordered_on:
+                data = data.sort(by=ordered_on)
+            iter_data = iter_dataframe(
+                data,
+                max_row_group_size=max_row_group_size,
+                sharp_on=ordered_on,
+                duplicates_on=duplicates_on,
+            )
+            # Write.
+            pf.write_row_groups(
+                data=iter_data,
+                row_group_offsets=None,
+                sort_pnames=False,
+                compression=compression,
+                write_fmd=False,
+            )
+            # Remove row groups of data that is overlapping.
+            pf.remove_row_groups(overlapping_rgs, write_fmd=False)
+            if rrg_end_idx is not None:
+                # New data has been inserted in the middle of existing row groups.
+                # Sorting row groups based on 'max' in 'ordered_on'.
+                ordered_on_idx = pf.columns.index(ordered_on)
+                pf.fmd.row_groups = sorted(
+                    pf.fmd.row_groups,
+                    key=lambda rg: statistics(rg.columns[ordered_on_idx])["max"],
+                )
+            # Rename partition files, and write fmd.
+            pf._sort_part_names(write_fmd=False)
+    else:
+        # Case initiating a new dataset.
+        iter_data = iter_dataframe(data, max_row_group_size)
+        chunk = next(iter_data)
+        if cmidx_expand:
+            chunk.columns = to_midx(chunk.columns, cmidx_levels)
+        # In case multi-index is used, check that it complies with fastparquet
+        # limitations.
+        if isinstance(chunk.columns, MultiIndex):
+            check_cmidx(chunk.columns)
+        fp_write(
+            dirpath,
+            chunk,
+            row_group_offsets=max_row_group_size,
+            compression=compression,
+            file_scheme="hive",
+            write_index=False,
+            append=False,
+        )
+        # Re-open to write remaining chunks.
+        pf = ParquetFile(dirpath)
+        # Appending remaining chunks.
+        pf.write_row_groups(
+            data=iter_data,
+            row_group_offsets=None,
+            sort_pnames=False,
+            compression=compression,
+            write_fmd=False,
+        )
+    # Manage and write metadata.
+    write_metadata(pf=pf, metadata=metadata, md_key=md_key)
-- 
2.43.0


From 9ee4ea3fc833b614eb9793f83ea9c8074e5c6e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 05/31] fix: order of row groups when new data lies before
 recorded row groups without overlap

---
 oups/store/writer.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 40d9867..67f358d 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -458,6 +458,8 @@ def write(
         # Identify overlaps in row groups between new data and recorded data.
         # Recorded row group start and end indexes.
         rrg_start_idx, rrg_end_idx = None, None
+        # New data lies before some recorded row groups, without overlap.
+        is_inserted = False
         pf = ParquetFile(dirpath)
         n_rrgs = len(pf.row_groups)
         if duplicates_on is not None:
@@ -505,6 +507,10 @@ def write(
                     rrg_end_idx = rrgs_idx[-1] + 1
                     if rrg_end_idx == n_rrgs:
                         rrg_end_idx = None
+            else:
+                is_inserted = bool(
+                    filter_row_groups(pf, [[(ordered_on, ">", end)]], as_idx=True),
+                )
         if max_nirgs is not None:
             # Number of incomplete row groups at end of recorded data.
             # Initialize number of rows with number to be written.
@@ -526,7 +532,7 @@ def write(
                     # the tail, in which case coalescing of end data would not be
                     # performed.
                     rrg_start_idx = min(rrg_start_idx_tmp, rrg_start_idx)
-                elif n_irgs and not rrg_end_idx:
+                elif n_irgs and not rrg_end_idx and not is_inserted:
                     # 2nd case checked: case 'ordered_on' is not used. New data is
                     # necessarily appended in this case.
                     rrg_start_idx = rrg_start_idx_tmp
@@ -572,14 +578,15 @@ def write(
             )
             # Remove row groups of data that is overlapping.
             pf.remove_row_groups(overlapping_rgs, write_fmd=False)
-            if rrg_end_idx is not None:
-                # New data has been inserted in the middle of existing row groups.
-                # Sorting row groups based on 'max' in 'ordered_on'.
-                ordered_on_idx = pf.columns.index(ordered_on)
-                pf.fmd.row_groups = sorted(
-                    pf.fmd.row_groups,
-                    key=lambda rg: statistics(rg.columns[ordered_on_idx])["max"],
-                )
+        if rrg_end_idx is not None or is_inserted:
+            # New data has been inserted in the middle of existing row groups.
+            # Sorting row groups based on 'max' in 'ordered_on'.
+            ordered_on_idx = pf.columns.index(ordered_on)
+            pf.fmd.row_groups = sorted(
+                pf.fmd.row_groups,
+                key=lambda rg: statistics(rg.columns[ordered_on_idx])["max"],
+            )
+        if rrg_start_idx is not None or is_inserted:
             # Rename partition files, and write fmd.
             pf._sort_part_names(write_fmd=False)
     else:
-- 
2.43.0


From ddc36d34254074bd3b2f6153532c163350acd951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 06/31] fix: order of row groups when consecutive row groups
 share a value

---
 oups/store/writer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 67f358d..8eabf65 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -580,11 +580,14 @@ def write(
             pf.remove_row_groups(overlapping_rgs, write_fmd=False)
         if rrg_end_idx is not None or is_inserted:
             # New data has been inserted in the middle of existing row groups.
-            # Sorting row groups based on 'max' in 'ordered_on'.
+            # Sorting row groups based on 'min' and 'max' in 'ordered_on' (a row
+            # group may start with the value the previous one ends with).
             ordered_on_idx = pf.columns.index(ordered_on)
             pf.fmd.row_groups = sorted(
                 pf.fmd.row_groups,
-                key=lambda rg: statistics(rg.columns[ordered_on_idx])["max"],
+                key=lambda rg: tuple(
+                    statistics(rg.columns[ordered_on_idx])[stat] for stat in ("min", "max")
+                ),
             )
         if rrg_start_idx is not None or is_inserted:
             # Rename partition files, and write fmd.
-- 
2.43.0


From 6c6263bed739eb98ffaedfcc4bb6aa2eb399dd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:56 +0000
Subject: [PATCH 07/31] fix: use default row group size when only 'max_nirgs'
 is set

---
 oups/store/writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 8eabf65..5d8b7d5 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -516,6 +516,8 @@ def write(
             # Initialize number of rows with number to be written.
             total_rows_in_irgs = len(data)
             rrg_start_idx_tmp = n_rrgs - 1
+            if max_row_group_size is None:
+                max_row_group_size = MAX_ROW_GROUP_SIZE
             min_row_group_size = int(max_row_group_size * 0.9)
             while pf[rrg_start_idx_tmp].count() <= min_row_group_size and rrg_start_idx_tmp >= 0:
                 total_rows_in_irgs += pf[rrg_start_idx_tmp].count()
-- 
2.43.0


From 6d9fe3162d2f810b32f0c53f8ae7840a39387e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 08/31] fix: oups metadata with falsy value is added, with None
 value is not

---
 oups/store/writer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 5d8b7d5..cd186de 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -306,11 +306,13 @@ def write_metadata(
                     else:
                         # Case 'update'.
                         existing_oups_spec_md[key] = value
-                elif value:
+                elif value is not None:
                     # Case 'add'.
                     existing_oups_spec_md[key] = value
         else:
-            existing_oups_spec_md = new_oups_spec_md
+            existing_oups_spec_md = {
+                key: value for key, value in new_oups_spec_md.items() if value is not None
+            }
         del OUPS_METADATA[md_key]
 
         if metadata:
-- 
2.43.0


From 2b48003f0c759fbe19d8468476d1fc479fde4c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:51 +0000
Subject: [PATCH 09/31] fix: do not modify 'duplicates_on' and 'metadata' given
 by the caller

---
 oups/store/writer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index cd186de..895499f 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -112,7 +112,7 @@ def iter_dataframe(
         elif isinstance(duplicates_on, list):
             if duplicates_on and sharp_on not in duplicates_on:
                 # Case 'not an empty list', and 'ordered_on' not in.
-                duplicates_on.append(sharp_on)
+                duplicates_on = [*duplicates_on, sharp_on]
         elif duplicates_on != sharp_on:
             # Case 'duplicates_on' is a single column name, but not
             # 'sharp_on'.
@@ -316,7 +316,7 @@ def write_metadata(
         del OUPS_METADATA[md_key]
 
         if metadata:
-            metadata[OUPS_METADATA_KEY] = dumps(existing_oups_spec_md)
+            metadata = {**metadata, OUPS_METADATA_KEY: dumps(existing_oups_spec_md)}
         else:
             metadata = {OUPS_METADATA_KEY: dumps(existing_oups_spec_md)}
 
@@ -480,7 +480,7 @@ def write(
             elif isinstance(duplicates_on, list):
                 if duplicates_on and ordered_on not in duplicates_on:
                     # Case 'not an empty list', and 'ordered_on' not in.
-                    duplicates_on.append(ordered_on)
+                    duplicates_on = [*duplicates_on, ordered_on]
             elif duplicates_on != ordered_on:
                 # Case 'duplicates_on' is a single column name, but not
                 # 'ordered_on'.
-- 
2.43.0


From 7d71c42b21e47bf45538c48373c7bf78b1858f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:58 +0000
Subject: [PATCH 10/31] fix: plain column names are kept whole when expanding a
 column index, list of levels is not modified

---
 oups/store/writer.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 895499f..df20868 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -202,12 +202,14 @@ def to_midx(idx: Index, levels: List[str] = None) -> MultiIndex:
     for val in idx:
         try:
             tup = literal_eval(val)
-            # Get max number of levels.
-            max_levels = max(len(tup), max_levels)
-            idx_temp.append(tup)
-        except ValueError:
+        except (ValueError, SyntaxError):
+            tup = None
+        if not isinstance(tup, tuple):
             # Keep value as string, enclosed in a tuple.
-            idx_temp.append(tuple(val))
+            tup = (val,)
+        # Get max number of levels.
+        max_levels = max(len(tup), max_levels)
+        idx_temp.append(tup)
     # Generate names of levels if required.
     diff = 0
     if levels is None:
@@ -217,7 +219,7 @@ def to_midx(idx: Index, levels: List[str] = None) -> MultiIndex:
     elif (len_lev := len(levels)) < max_levels:
         diff = max_levels - len_lev
     if diff > 0:
-        levels.extend([f"l{i}" for i in range(len_lev, max_levels)])
+        levels = [*levels, *(f"l{i}" for i in range(len_lev, max_levels))]
     # Equalize length of tuples.
     tuples = [(*t, *[""] * n) if (n := (max_levels - len(t))) else t for t in idx_temp]
     return MultiIndex.from_tuples(tuples, names=levels)
-- 
2.43.0


From 41b5a2b136a60e1a60fac2c2d58a1c24d217e699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 11/31] fix: min and max of a column with only null values in a
 row group

---
 oups/store/router.py | 242 ++++++++++++++++++++++---------------------
 1 file changed, 124 insertions(+), 118 deletions(-)

diff --git a/oups/store/router.py b/oups/store/router.py
index 2422a5b..0d341c6 100644
--- a/oups/store/router.py
+++ b/oups/store/router.py
@@ -1,118 +1,124 @@
-#!/usr/bin/env python3
-"""
-Created on Wed Dec 26 22:30:00 2021.
-
-@author: yoh
-
-"""
-from functools import cached_property
-from os import scandir
-
-from cloudpickle import loads
-from fastparquet import ParquetFile
-from vaex import open_many
-
-from oups.store.defines import DIR_SEP
-from oups.store.writer import OUPS_METADATA_KEY
-
-
-class ParquetHandle:
-    """
-    Handle to parquet dataset and statistics on disk.
-
-    Attributes
-    ----------
-    dirpath : str
-        Directory path from where to load data.
-    pf : ParquetFile
-        `ParquetFile` (fastparquet) instance.
-    pdf : pDataframe
-        Dataframe in pandas format.
-    vdf : vDataFrame
-        Dataframe in vaex format.
-
-    Methods
-    -------
-    min_max(col)
-        Retrieve min and max from statistics for a column.
-
-    """
-
-    def __init__(self, dirpath: str):
-        """
-        Instantiate parquet handle.
-
-        Parameters
-        ----------
-        dirpath : str
-            Directory path from where to load data.
-
-        """
-        self._dirpath = dirpath
-
-    @property
-    def dirpath(self):
-        """
-        Return dirpath.
-        """
-        return self._dirpath
-
-    @cached_property
-    def pf(self):
-        """
-        Return handle to data through a parquet file.
-        """
-        return ParquetFile(self._dirpath)
-
-    @property
-    def pdf(self):
-        """
-        Return data as a pandas dataframe.
-        """
-        return ParquetFile(self._dirpath).to_pandas()
-
-    @property
-    def vdf(self):
-        """
-        Return handle to data through a vaex dataframe.
-        """
-        # To circumvent vaex lexicographic filename sorting to order row
-        # groups, ordering the list of files is required.
-        files = [file.name for file in scandir(self._dirpath) if file.name[-7:] == "parquet"]
-        files.sort(key=lambda x: int(x[5:-8]))
-        prefix_dirpath = f"{str(self._dirpath)}{DIR_SEP}".__add__
-        return open_many(map(prefix_dirpath, files))
-
-    def min_max(self, col: str) -> tuple:
-        """
-        Return min and max of values of a column.
-
-        Parameters
-        ----------
-        col : str
-            Column name.
-
-        Returns
-        -------
-        tuple
-            Min and max values of column.
-
-        """
-        pf_stats = ParquetFile(self._dirpath).statistics
-        return (min(pf_stats["min"][col]), max(pf_stats["max"][col]))
-
-    @property
-    def metadata(self) -> dict:
-        """
-        Return metadata stored when using `oups.writer.write()`.
-        """
-        return self.pf.key_value_metadata
-
-    @property
-    def _oups_metadata(self) -> dict:
-        """
-        Return specific oups metadata.
-        """
-        md = self.pf.key_value_metadata
-        if OUPS_METADATA_KEY in md:
-            return loads(md[OUPS_METADATA_KEY])
+#!/usr/bin/env python3
+"""
+Created on Wed Dec 26 22:30:00 2021.
+
+@author: yoh
+
+"""
+from functools import cached_property
+from os import scandir
+
+from cloudpickle import loads
+from fastparquet import ParquetFile
+from fastparquet.api import statistics
+from vaex import open_many
+
+from oups.store.defines import DIR_SEP
+from oups.store.writer import OUPS_METADATA_KEY
+
+
+class ParquetHandle:
+    """
+    Handle to parquet dataset and statistics on disk.
+
+    Attributes
+    ----------
+    dirpath : str
+        Directory path from where to load data.
+    pf : ParquetFile
+        `ParquetFile` (fastparquet) instance.
+    pdf : pDataframe
+        Dataframe in pandas format.
+    vdf : vDataFrame
+        Dataframe in vaex format.
+
+    Methods
+    -------
+    min_max(col)
+        Retrieve min and max from statistics for a column.
+
+    """
+
+    def __init__(self, dirpath: str):
+        """
+        Instantiate parquet handle.
+
+        Parameters
+        ----------
+        dirpath : str
+            Directory path from where to load data.
+
+        """
+        self._dirpath = dirpath
+
+    @property
+    def dirpath(self):
+        """
+        Return dirpath.
+        """
+        return self._dirpath
+
+    @cached_property
+    def pf(self):
+        """
+        Return handle to data through a parquet file.
+        """
+        return ParquetFile(self._dirpath)
+
+    @property
+    def pdf(self):
+        """
+        Return data as a pandas dataframe.
+        """
+        return ParquetFile(self._dirpath).to_pandas()
+
+    @property
+    def vdf(self):
+        """
+        Return handle to data through a vaex dataframe.
+        """
+        # To circumvent vaex lexicographic filename sorting to order row
+        # groups, ordering the list of files is required.
+        files = [file.name for file in scandir(self._dirpath) if file.name[-7:] == "parquet"]
+        files.sort(key=lambda x: int(x[5:-8]))
+        prefix_dirpath = f"{str(self._dirpath)}{DIR_SEP}".__add__
+        return open_many(map(prefix_dirpath, files))
+
+    def min_max(self, col: str) -> tuple:
+        """
+        Return min and max of values of a column.
+
+        Parameters
+        ----------
+        col : str
+            Column name.
+
+        Returns
+        -------
+        tuple
+            Min and max values of column.
+
+        """
+        pf = ParquetFile(self._dirpath)
+        # Statistics per row group: a row group with only null values in this
+        # column has no min nor max.
+        stats = [statistics(pf[idx]) for idx in range(len(pf.row_groups))]
+        mins = [val for rg in stats for val in rg["min"][col] if val is not None]
+        maxs = [val for rg in stats for val in rg["max"][col] if val is not None]
+        return (min(mins, default=None), max(maxs, default=None))
+
+    @property
+    def metadata(self) -> dict:
+        """
+        Return metadata stored when using `oups.writer.write()`.
+        """
+        return self.pf.key_value_metadata
+
+    @property
+    def _oups_metadata(self) -> dict:
+        """
+        Return specific oups metadata.
+        """
+        md = self.pf.key_value_metadata
+        if OUPS_METADATA_KEY in md:
+            return loads(md[OUPS_METADATA_KEY])
-- 
2.43.0


From b4aec43dee02c3762bd3e59c9d8e457a01b811e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:54 +0000
Subject: [PATCH 12/31] fix: string form of a key whose last level starts with
 an empty field

---
 oups/store/indexer.py | 800 +++++++++++++++++++++---------------------
 1 file changed, 399 insertions(+), 401 deletions(-)

diff --git a/oups/store/indexer.py b/oups/store/indexer.py
index 5c25abb..4ab1994 100644
--- a/oups/store/indexer.py
+++ b/oups/store/indexer.py
@@ -1,401 +1,399 @@
-#!/usr/bin/env python3
-"""
-Created on Wed Dec  1 18:35:00 2021.
-
-@author: yoh
-
-"""
-import re
-from dataclasses import dataclass
-from dataclasses import fields
-from dataclasses import is_dataclass
-from functools import partial
-from typing import Any, Callable, Iterator, List, Tuple, Type, Union
-
-from oups.store.defines import DIR_SEP
-
-
-# Float removed to prevent having '.' in field values.
-TYPE_ACCEPTED = {int, str}
-# Default fields separator, if not modified by user.
-DEFAULT_FIELDS_SEP = "-"
-# Characters forbidden in field value.
-# 'fields_sep' is also included at runtime before check.
-FORBIDDEN_CHARS = (DIR_SEP, ".")
-
-
-def _is_dataclass_instance(obj: Any) -> bool:
-    # Check if a class is an instance of a dataclass and not a dataclass
-    # itself, as per
-    # https://docs.python.org/3/library/dataclasses.html#dataclasses.is_dataclass
-    return is_dataclass(obj) and not isinstance(obj, type)
-
-
-def _dataclass_instance_to_dict(obj: dataclass) -> dict:
-    # Shallow copy, not possible to use 'asdict()', as per
-    # https://docs.python.org/3/library/dataclasses.html#dataclasses.asdict
-    return {field.name: getattr(obj, field.name) for field in fields(obj)}
-
-
-def _dataclass_instance_to_lists(obj: dataclass) -> Iterator[List[Any]]:
-    """
-    Yield items as lists of fields values.
-
-    If a new dataclass instance is the last field, its fields values are
-    yielded as next item, and so on...
-
-    Parameters
-    ----------
-    obj : dataclass
-        May contain nested dataclass instances.
-
-    Returns
-    -------
-    Iterator[List[Any]]
-        Yields list of fields values.
-
-    """
-    fields = list(_dataclass_instance_to_dict(obj).values())
-    if fields:
-        yield fields
-        if _is_dataclass_instance(fields[-1]):
-            yield from _dataclass_instance_to_lists(fields[-1])
-
-
-def _validate_toplevel_instance(toplevel: dataclass):
-    """
-    Validate a 'toplevel'-decorated data class instance.
-
-    Check field type is only among 'int', 'str' or another dataclass instance.
-    Check that there is at most only one dataclass instance per nesting level,
-    and if present, it is not the 1st field, nor the last field.
-    Raise a TypeError or ValueError if instance is not compliant.
-
-    Parameters
-    ----------
-    toplevel : dataclass
-
-    """
-    forbidden_chars = (toplevel.fields_sep, *FORBIDDEN_CHARS)
-    for fields_ in _dataclass_instance_to_lists(toplevel):
-        number_of_fields = len(fields_)
-        for counter, field in enumerate(fields_):
-            if _is_dataclass_instance(field):
-                # If a dataclass instance.
-                if not counter:
-                    # A dataclass instance cannot be the only field.
-                    # Detecting if it is in last position suffice, except if
-                    # there is only one field, in which case it is also in
-                    # 1st position.
-                    raise TypeError(
-                        "a dataclass instance cannot be the only \
-field of a level.",
-                    )
-                if counter + 1 != number_of_fields:
-                    # A dataclass instance cannot be in last position.
-                    raise TypeError(
-                        "a dataclass instance is only possible in \
-last position.",
-                    )
-            else:
-                # If not a dataclass instance.
-                field_as_str = str(field)
-                if any((symb in field_as_str for symb in forbidden_chars)):
-                    raise ValueError(
-                        f"use of a forbidden character among \
-{forbidden_chars} is not possible in {field_as_str}.",
-                    )
-            if not ((type(field) in TYPE_ACCEPTED) or _is_dataclass_instance(field)):
-                raise TypeError(f"field type {type(field)} not possible.")
-    return
-
-
-def _dataclass_instance_to_str(toplevel: dataclass, as_path: bool = False) -> str:
-    """
-    Return a dataclass instance as a string.
-
-    The different levels in this string are either separated with 'fields_sep'
-    or with DIR_SEP.
-
-    Parameters
-    ----------
-    toplevel : dataclass
-    as_path : bool, default False
-        Defines separator to be used between levels of the dataclass.
-        If True, use DIR_SEP ('/');
-        If False, use 'fields_sep'
-
-    Returns
-    -------
-    str
-        All fields values, joined:
-            - At a same level, using 'fields_sep';
-            - Between different levels, either 'fields_sep', either DIR_SEP,
-              depending 'as_path'.
-
-    """
-    levels_sep = DIR_SEP if as_path else toplevel.fields_sep
-    to_str = []
-    for fields_ in _dataclass_instance_to_lists(toplevel):
-        # Relying on the fact that only the tail can be a dataclass instance.
-        to_str.append(toplevel.fields_sep.join(map(str, fields_[:-1])))
-    if to_str[-1]:
-        to_str[-1] += f"{toplevel.fields_sep}{str(fields_[-1])}"
-    else:
-        to_str[-1] = str(fields_[-1])
-    return levels_sep.join(to_str)
-
-
-def _dataclass_fields_types_to_lists(cls: Type[dataclass]) -> List[List[Any]]:
-    """
-    Type of fields in dataclass returned in lists.
-
-    Return the type of each field, one list per level, and all levels in a
-    list.
-
-    Parameters
-    ----------
-    cls : Type[dataclass]
-        A dataclass instance or a dataclass.
-
-    Returns
-    -------
-    List[List[Any]]
-        List of fields types lists, one list per level.
-
-    """
-    types = [[field.type for field in fields(cls)]]
-    while is_dataclass(last := types[-1][-1]):
-        types.append([field.type for field in fields(last)])
-    return types
-
-
-def _dataclass_instance_from_str(cls: Type[dataclass], string: str) -> Union[dataclass, None]:
-    """
-    Return a dataclass instance derived from input string.
-
-    Level separator can either be DIR_SEP or 'cls.fields_sep'.
-    If dataclass '__init__' fails, `None` is returned.
-
-    Parameters
-    ----------
-    cls : Type[dataclass]
-        Dataclass to be used for generating dataclass instance.
-    string : str
-        String representation of the dataclass instance (using either
-        'cls.fields_sep' of DIR_SEP)
-
-    Returns
-    -------
-    Union[dataclass, None]
-        Dataclass instance derived from input string.
-
-    """
-    types = _dataclass_fields_types_to_lists(cls)
-    # Split string depending 'fields_sep' and 'DIR_SEP', into different fields.
-    fields_sep = cls.fields_sep
-    strings_as_list = re.split(rf"{DIR_SEP}|\{fields_sep}", string)
-    # Manages last level first.
-    level_types = types.pop()  # remove last element
-    level_length = len(level_types)
-    try:
-        level = [
-            field_type(field_as_string)
-            for field_type, field_as_string in zip(level_types, strings_as_list[-level_length:])
-        ]
-        while types:
-            strings_as_list = strings_as_list[:-level_length]
-            level_types = types.pop()  # remove last element
-            level_length = len(level_types) - 1
-            # Relying on the fact that a dataclass is necessarily the last
-            # field.
-            level = [
-                field_type(field_as_string)
-                for field_type, field_as_string in zip(
-                    level_types[:-1],
-                    strings_as_list[-level_length:],
-                )
-            ] + [level_types[-1](*level)]
-        return cls(*level, check=False)
-    except (TypeError, ValueError):
-        # TypeError if the number of arguments for instantiation of a
-        # dataclass is not correct (meaning the split has not been done
-        # with the right 'fields_sep' character).
-        # ValueError if there is a type mismatch, for instance when 'int'
-        # is initialized from a string.
-        return None
-
-
-def _get_depth(obj: Union[dataclass, Type[dataclass]]) -> int:
-    """
-    Return number of levels, including 'toplevel'.
-
-    To be decorated with '@property'.
-
-    """
-    depth = 1
-    level = obj
-    while is_dataclass(level := fields(level)[-1].type):
-        depth += 1
-    return depth
-
-
-def _reduce(obj: Type[dataclass]) -> Tuple[Callable, Tuple[str]]:
-    """
-    Reduce function for making 'Indexer' serializable.
-
-    Returns
-    -------
-    Tuple[Callable, Tuple[str]]
-        See '__reduce' standard interface.
-        https://docs.python.org/3/library/pickle.html#object.__reduce__
-
-    """
-    return obj.from_str, (str(obj),)
-
-
-class TopLevel(type):
-    """
-    Metaclass defining class properties of '@toplevel'-decorated class.
-    """
-
-    @property
-    def fields_sep(cls) -> str:
-        """
-        Return field separator.
-        """
-        return cls._fields_sep
-
-    @property
-    def depth(cls) -> int:
-        """
-        Return depth, i.e. number of levels.
-        """
-        return cls._depth
-
-
-def toplevel(index_class=None, *, fields_sep: str = DEFAULT_FIELDS_SEP):
-    """
-    Turn decorated class into an indexing schema.
-
-    Decorated class is equipped with methods and attributes to use with a
-    ``ParquetSet`` instance.
-    It has to be defined as one would define a class decorated by ``@dataclass``.
-
-    Parameters
-    ----------
-    fields_sep : str, default '.'
-        Character to use as separator between fields of the dataclass.
-
-    Returns
-    -------
-    Decorated class.
-
-    Attributes
-    ----------
-    fields_sep: str
-        Fields separator (can't assign).
-    depth: int
-        Number of levels, including 'toplevel' (can't assign).
-
-    Notes
-    -----
-    ``@dataclass`` is actually called when decorating with ``@toplevel`` with
-    parameters set to:
-
-      - ``order=True``,
-      - ``frozen=True``
-
-    When class is instantiated, a validation step is conducted on attributes
-    types and values.
-
-      - An instance can only be composed with ``int``, ``str`` or a dataclass
-        object coming in last position;
-      - Value of attribute can not incorporate forbidden characters like ``/``
-        and ``self.fields_sep``.
-
-    """
-
-    def tweak(index_class):
-        # Re-create 'index_class' as a 'TopLevel'-inheriting class to equip it
-        # with class properties 'depth' and 'fields_sep'
-        # (as per https://stackoverflow.com/questions/5120688)
-        # Explicitly add property to OtherClass.__dict__
-        # (as per https://stackoverflow.com/questions/70233891)
-        d = dict(index_class.__dict__)
-        d.update({"fields_sep": TopLevel.fields_sep, "depth": TopLevel.depth})
-        index_class = TopLevel(index_class.__name__, index_class.__bases__, d)
-        # Wrap with `@dataclass`.
-        # TODO
-        # When python 3.10 is more wide spread, set 'slot=True' to save RAM.
-        index_class = dataclass(index_class, order=True, frozen=True)
-
-        # Equip 'index_class' with what is needed to be a 'toplevel'.
-        # Dunders: modified '__init__', modified '__str__'
-        # Copy of original __init__ to call it without recursion.
-        index_class_init = index_class.__init__
-
-        def __init__(self, *args, check: bool = True, **kws):
-            #            object.__setattr__(self, "_fields_sep", fields_sep)
-            index_class_init(self, *args, **kws)
-            if check:
-                # Validate dataclass instance.
-                _validate_toplevel_instance(self)
-
-        index_class.__init__ = __init__
-        index_class.__str__ = _dataclass_instance_to_str
-
-        # Class properties: 'fields_sep', 'depth'
-        index_class._fields_sep = fields_sep
-        index_class._depth = _get_depth(index_class)
-
-        # Class instance properties: 'to_path'
-        _dataclass_instance_to_str_p = partial(_dataclass_instance_to_str, as_path=True)
-        index_class.to_path = property(_dataclass_instance_to_str_p)
-
-        # Classmethods: 'from_str', 'from_path'.
-        index_class.from_path = classmethod(_dataclass_instance_from_str)
-        index_class.from_str = classmethod(_dataclass_instance_from_str)
-
-        # Serialization.
-        index_class.__reduce__ = _reduce
-
-        return index_class
-
-    if index_class:
-        # Calling decorator without other parameters.
-        return tweak(index_class)
-    # Calling decorator with other parameters.
-    return tweak
-
-
-def is_toplevel(toplevel) -> bool:
-    """
-    Return `True` if `toplevel`-decorated class.
-
-    Returns 'True' if 'toplevel' (class or instance) has been decorated with
-    '@toplevel'. It checks presence 'fields_sep' attribute and 'from_path' method.
-
-    """
-    return hasattr(toplevel, "fields_sep") and callable(getattr(toplevel, "from_path", None))
-
-
-def sublevel(index_class):
-    """
-    Define a subdirectory level.
-
-    This decorator really is an alias of ``@dataclass`` decorator, with
-    parameters set to:
-
-        - ``order=True``,
-        - ``frozen=True``
-
-    """
-    # Wrap with `@dataclass`.
-    # TODO
-    # When python 3.10 is more wide spread, set 'slot=True' to save RAM.
-    return dataclass(index_class, order=True, frozen=True)
-
-
-# TODO
-# - deep copy of an Indexer is currently not possible. Work this out.
+#!/usr/bin/env python3
+"""
+Created on Wed Dec  1 18:35:00 2021.
+
+@author: yoh
+
+"""
+import re
+from dataclasses import dataclass
+from dataclasses import fields
+from dataclasses import is_dataclass
+from functools import partial
+from typing import Any, Callable, Iterator, List, Tuple, Type, Union
+
+from oups.store.defines import DIR_SEP
+
+
+# Float removed to prevent having '.' in field values.
+TYPE_ACCEPTED = {int, str}
+# Default fields separator, if not modified by user.
+DEFAULT_FIELDS_SEP = "-"
+# Characters forbidden in field value.
+# 'fields_sep' is also included at runtime before check.
+FORBIDDEN_CHARS = (DIR_SEP, ".")
+
+
+def _is_dataclass_instance(obj: Any) -> bool:
+    # Check if a class is an instance of a dataclass and not a dataclass
+    # itself, as per
+    # https://docs.python.org/3/library/dataclasses.html#dataclasses.is_dataclass
+    return is_dataclass(obj) and not isinstance(obj, type)
+
+
+def _dataclass_instance_to_dict(obj: dataclass) -> dict:
+    # Shallow copy, not possible to use 'asdict()', as per
+    # https://docs.python.org/3/library/dataclasses.html#dataclasses.asdict
+    return {field.name: getattr(obj, field.name) for field in fields(obj)}
+
+
+def _dataclass_instance_to_lists(obj: dataclass) -> Iterator[List[Any]]:
+    """
+    Yield items as lists of fields values.
+
+    If a new dataclass instance is the last field, its fields values are
+    yielded as next item, and so on...
+
+    Parameters
+    ----------
+    obj : dataclass
+        May contain nested dataclass instances.
+
+    Returns
+    -------
+    Iterator[List[Any]]
+        Yields list of fields values.
+
+    """
+    fields = list(_dataclass_instance_to_dict(obj).values())
+    if fields:
+        yield fields
+        if _is_dataclass_instance(fields[-1]):
+            yield from _dataclass_instance_to_lists(fields[-1])
+
+
+def _validate_toplevel_instance(toplevel: dataclass):
+    """
+    Validate a 'toplevel'-decorated data class instance.
+
+    Check field type is only among 'int', 'str' or another dataclass instance.
+    Check that there is at most only one dataclass instance per nesting level,
+    and if present, it is not the 1st field, nor the last field.
+    Raise a TypeError or ValueError if instance is not compliant.
+
+    Parameters
+    ----------
+    toplevel : dataclass
+
+    """
+    forbidden_chars = (toplevel.fields_sep, *FORBIDDEN_CHARS)
+    for fields_ in _dataclass_instance_to_lists(toplevel):
+        number_of_fields = len(fields_)
+        for counter, field in enumerate(fields_):
+            if _is_dataclass_instance(field):
+                # If a dataclass instance.
+                if not counter:
+                    # A dataclass instance cannot be the only field.
+                    # Detecting if it is in last position suffice, except if
+                    # there is only one field, in which case it is also in
+                    # 1st position.
+                    raise TypeError(
+                        "a dataclass instance cannot be the only \
+field of a level.",
+                    )
+                if counter + 1 != number_of_fields:
+                    # A dataclass instance cannot be in last position.
+                    raise TypeError(
+                        "a dataclass instance is only possible in \
+last position.",
+                    )
+            else:
+                # If not a dataclass instance.
+                field_as_str = str(field)
+                if any((symb in field_as_str for symb in forbidden_chars)):
+                    raise ValueError(
+                        f"use of a forbidden character among \
+{forbidden_chars} is not possible in {field_as_str}.",
+                    )
+            if not ((type(field) in TYPE_ACCEPTED) or _is_dataclass_instance(field)):
+                raise TypeError(f"field type {type(field)} not possible.")
+    return
+
+
+def _dataclass_instance_to_str(toplevel: dataclass, as_path: bool = False) -> str:
+    """
+    Return a dataclass instance as a string.
+
+    The different levels in this string are either separated with 'fields_sep'
+    or with DIR_SEP.
+
+    Parameters
+    ----------
+    toplevel : dataclass
+    as_path : bool, default False
+        Defines separator to be used between levels of the dataclass.
+        If True, use DIR_SEP ('/');
+        If False, use 'fields_sep'
+
+    Returns
+    -------
+    str
+        All fields values, joined:
+            - At a same level, using 'fields_sep';
+            - Between different levels, either 'fields_sep', either DIR_SEP,
+              depending 'as_path'.
+
+    """
+    levels_sep = DIR_SEP if as_path else toplevel.fields_sep
+    to_str = []
+    for fields_ in _dataclass_instance_to_lists(toplevel):
+        # Relying on the fact that only the tail can be a dataclass instance.
+        if _is_dataclass_instance(fields_[-1]):
+            fields_ = fields_[:-1]
+        to_str.append(toplevel.fields_sep.join(map(str, fields_)))
+    return levels_sep.join(to_str)
+
+
+def _dataclass_fields_types_to_lists(cls: Type[dataclass]) -> List[List[Any]]:
+    """
+    Type of fields in dataclass returned in lists.
+
+    Return the type of each field, one list per level, and all levels in a
+    list.
+
+    Parameters
+    ----------
+    cls : Type[dataclass]
+        A dataclass instance or a dataclass.
+
+    Returns
+    -------
+    List[List[Any]]
+        List of fields types lists, one list per level.
+
+    """
+    types = [[field.type for field in fields(cls)]]
+    while is_dataclass(last := types[-1][-1]):
+        types.append([field.type for field in fields(last)])
+    return types
+
+
+def _dataclass_instance_from_str(cls: Type[dataclass], string: str) -> Union[dataclass, None]:
+    """
+    Return a dataclass instance derived from input string.
+
+    Level separator can either be DIR_SEP or 'cls.fields_sep'.
+    If dataclass '__init__' fails, `None` is returned.
+
+    Parameters
+    ----------
+    cls : Type[dataclass]
+        Dataclass to be used for generating dataclass instance.
+    string : str
+        String representation of the dataclass instance (using either
+        'cls.fields_sep' of DIR_SEP)
+
+    Returns
+    -------
+    Union[dataclass, None]
+        Dataclass instance derived from input string.
+
+    """
+    types = _dataclass_fields_types_to_lists(cls)
+    # Split string depending 'fields_sep' and 'DIR_SEP', into different fields.
+    fields_sep = cls.fields_sep
+    strings_as_list = re.split(rf"{DIR_SEP}|\{fields_sep}", string)
+    # Manages last level first.
+    level_types = types.pop()  # remove last element
+    level_length = len(level_types)
+    try:
+        level = [
+            field_type(field_as_string)
+            for field_type, field_as_string in zip(level_types, strings_as_list[-level_length:])
+        ]
+        while types:
+            strings_as_list = strings_as_list[:-level_length]
+            level_types = types.pop()  # remove last element
+            level_length = len(level_types) - 1
+            # Relying on the fact that a dataclass is necessarily the last
+            # field.
+            level = [
+                field_type(field_as_string)
+                for field_type, field_as_string in zip(
+                    level_types[:-1],
+                    strings_as_list[-level_length:],
+                )
+            ] + [level_types[-1](*level)]
+        return cls(*level, check=False)
+    except (TypeError, ValueError):
+        # TypeError if the number of arguments for instantiation of a
+        # dataclass is not correct (meaning the split has not been done
+        # with the right 'fields_sep' character).
+        # ValueError if there is a type mismatch, for instance when 'int'
+        # is initialized from a string.
+        return None
+
+
+def _get_depth(obj: Union[dataclass, Type[dataclass]]) -> int:
+    """
+    Return number of levels, including 'toplevel'.
+
+    To be decorated with '@property'.
+
+    """
+    depth = 1
+    level = obj
+    while is_dataclass(level := fields(level)[-1].type):
+        depth += 1
+    return depth
+
+
+def _reduce(obj: Type[dataclass]) -> Tuple[Callable, Tuple[str]]:
+    """
+    Reduce function for making 'Indexer' serializable.
+
+    Returns
+    -------
+    Tuple[Callable, Tuple[str]]
+        See '__reduce' standard interface.
+        https://docs.python.org/3/library/pickle.html#object.__reduce__
+
+    """
+    return obj.from_str, (str(obj),)
+
+
+class TopLevel(type):
+    """
+    Metaclass defining class properties of '@toplevel'-decorated class.
+    """
+
+    @property
+    def fields_sep(cls) -> str:
+        """
+        Return field separator.
+        """
+        return cls._fields_sep
+
+    @property
+    def depth(cls) -> int:
+        """
+        Return depth, i.e. number of levels.
+        """
+        return cls._depth
+
+
+def toplevel(index_class=None, *, fields_sep: str = DEFAULT_FIELDS_SEP):
+    """
+    Turn decorated class into an indexing schema.
+
+    Decorated class is equipped with methods and attributes to use with a
+    ``ParquetSet`` instance.
+    It has to be defined as one would define a class decorated by ``@dataclass``.
+
+    Parameters
+    ----------
+    fields_sep : str, default '.'
+        Character to use as separator between fields of the dataclass.
+
+    Returns
+    -------
+    Decorated class.
+
+    Attributes
+    ----------
+    fields_sep: str
+        Fields separator (can't assign).
+    depth: int
+        Number of levels, including 'toplevel' (can't assign).
+
+    Notes
+    -----
+    ``@dataclass`` is actually called when decorating with ``@toplevel`` with
+    parameters set to:
+
+      - ``order=True``,
+      - ``frozen=True``
+
+    When class is instantiated, a validation step is conducted on attributes
+    types and values.
+
+      - An instance can only be composed with ``int``, ``str`` or a dataclass
+        object coming in last position;
+      - Value of attribute can not incorporate forbidden characters like ``/``
+        and ``self.fields_sep``.
+
+    """
+
+    def tweak(index_class):
+        # Re-create 'index_class' as a 'TopLevel'-inheriting class to equip it
+        # with class properties 'depth' and 'fields_sep'
+        # (as per https://stackoverflow.com/questions/5120688)
+        # Explicitly add property to OtherClass.__dict__
+        # (as per https://stackoverflow.com/questions/70233891)
+        d = dict(index_class.__dict__)
+        d.update({"fields_sep": TopLevel.fields_sep, "depth": TopLevel.depth})
+        index_class = TopLevel(index_class.__name__, index_class.__bases__, d)
+        # Wrap with `@dataclass`.
+        # TODO
+        # When python 3.10 is more wide spread, set 'slot=True' to save RAM.
+        index_class = dataclass(index_class, order=True, frozen=True)
+
+        # Equip 'index_class' with what is needed to be a 'toplevel'.
+        # Dunders: modified '__init__', modified '__str__'
+        # Copy of original __init__ to call it without recursion.
+        index_class_init = index_class.__init__
+
+        def __init__(self, *args, check: bool = True, **kws):
+            #            object.__setattr__(self, "_fields_sep", fields_sep)
+            index_class_init(self, *args, **kws)
+            if check:
+                # Validate dataclass instance.
+                _validate_toplevel_instance(self)
+
+        index_class.__init__ = __init__
+        index_class.__str__ = _dataclass_instance_to_str
+
+        # Class properties: 'fields_sep', 'depth'
+        index_class._fields_sep = fields_sep
+        index_class._depth = _get_depth(index_class)
+
+        # Class instance properties: 'to_path'
+        _dataclass_instance_to_str_p = partial(_dataclass_instance_to_str, as_path=True)
+        index_class.to_path = property(_dataclass_instance_to_str_p)
+
+        # Classmethods: 'from_str', 'from_path'.
+        index_class.from_path = classmethod(_dataclass_instance_from_str)
+        index_class.from_str = classmethod(_dataclass_instance_from_str)
+
+        # Serialization.
+        index_class.__reduce__ = _reduce
+
+        return index_class
+
+    if index_class:
+        # Calling decorator without other parameters.
+        return tweak(index_class)
+    # Calling decorator with other parameters.
+    return tweak
+
+
+def is_toplevel(toplevel) -> bool:
+    """
+    Return `True` if `toplevel`-decorated class.
+
+    Returns 'True' if 'toplevel' (class or instance) has been decorated with
+    '@toplevel'. It checks presence 'fields_sep' attribute and 'from_path' method.
+
+    """
+    return hasattr(toplevel, "fields_sep") and callable(getattr(toplevel, "from_path", None))
+
+
+def sublevel(index_class):
+    """
+    Define a subdirectory level.
+
+    This decorator really is an alias of ``@dataclass`` decorator, with
+    parameters set to:
+
+        - ``order=True``,
+        - ``frozen=True``
+
+    """
+    # Wrap with `@dataclass`.
+    # TODO
+    # When python 3.10 is more wide spread, set 'slot=True' to save RAM.
+    return dataclass(index_class, order=True, frozen=True)
+
+
+# TODO
+# - deep copy of an Indexer is currently not possible. Work this out.
-- 
2.43.0


From ca2e24362cd5eefd6e14d6317cb5364aa130fc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 13/31] fix: refuse a key with a level reduced to an empty
 string, it has no directory of its own

---
 oups/store/indexer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oups/store/indexer.py b/oups/store/indexer.py
index 4ab1994..699ae4b 100644
--- a/oups/store/indexer.py
+++ b/oups/store/indexer.py
@@ -107,6 +107,9 @@ last position.",
                     )
             if not ((type(field) in TYPE_ACCEPTED) or _is_dataclass_instance(field)):
                 raise TypeError(f"field type {type(field)} not possible.")
+        if (fields_[:-1] if _is_dataclass_instance(fields_[-1]) else fields_) == [""]:
+            # Level would have no directory.
+            raise ValueError("an empty string is not possible for the only field of a level.")
     return
 
 
-- 
2.43.0


From a0a1cf25bf9e8e0cf9b5cd9ad68190e950d2702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 14/31] fix: any character can be used as fields separator

---
 oups/store/indexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oups/store/indexer.py b/oups/store/indexer.py
index 699ae4b..ebb4776 100644
--- a/oups/store/indexer.py
+++ b/oups/store/indexer.py
@@ -195,7 +195,7 @@ def _dataclass_instance_from_str(cls: Type[dataclass], string: str) -> Union[dat
     types = _dataclass_fields_types_to_lists(cls)
     # Split string depending 'fields_sep' and 'DIR_SEP', into different fields.
     fields_sep = cls.fields_sep
-    strings_as_list = re.split(rf"{DIR_SEP}|\{fields_sep}", string)
+    strings_as_list = re.split(rf"{DIR_SEP}|{re.escape(fields_sep)}", string)
     # Manages last level first.
     level_types = types.pop()  # remove last element
     level_length = len(level_types)
-- 
2.43.0


From b780fa11d8e7632b1c6c895be7a32a10e1627a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:11 +0000
Subject: [PATCH 15/31] fix: a string which is not the form of a key gives no
 key

---
 oups/store/indexer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/oups/store/indexer.py b/oups/store/indexer.py
index ebb4776..c807974 100644
--- a/oups/store/indexer.py
+++ b/oups/store/indexer.py
@@ -176,7 +176,8 @@ def _dataclass_instance_from_str(cls: Type[dataclass], string: str) -> Union[dat
     Return a dataclass instance derived from input string.
 
     Level separator can either be DIR_SEP or 'cls.fields_sep'.
-    If dataclass '__init__' fails, `None` is returned.
+    If dataclass '__init__' fails, or if the string is not the one (or the path)
+    of obtained instance, `None` is returned.
 
     Parameters
     ----------
@@ -217,14 +218,17 @@ def _dataclass_instance_from_str(cls: Type[dataclass], string: str) -> Union[dat
                     strings_as_list[-level_length:],
                 )
             ] + [level_types[-1](*level)]
-        return cls(*level, check=False)
+        key = cls(*level)
     except (TypeError, ValueError):
         # TypeError if the number of arguments for instantiation of a
         # dataclass is not correct (meaning the split has not been done
         # with the right 'fields_sep' character).
         # ValueError if there is a type mismatch, for instance when 'int'
-        # is initialized from a string.
+        # is initialized from a string, or if a value is forbidden.
         return None
+    # Several strings can be split into the same values ('1' and '01' with an
+    # 'int', additional separators...). Only those of the key are retained.
+    return key if string in (str(key), key.to_path) else None
 
 
 def _get_depth(obj: Union[dataclass, Type[dataclass]]) -> int:
-- 
2.43.0


From c05169d68322ac656a507ec97ec6bf49f6ba0dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:39 +0000
Subject: [PATCH 16/31] fix: deletion never removes base directory nor those
 above, whatever the form of the base path

---
 oups/store/collection.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/oups/store/collection.py b/oups/store/collection.py
index 6063968..eb9a3e7 100644
--- a/oups/store/collection.py
+++ b/oups/store/collection.py
@@ -266,14 +266,14 @@ class ParquetSet:
 
         """
         if key in self._keys:
-            # Keep track of intermediate partition folders, in case one get
-            # empty.
-            basepath = self._basepath
-            dirpath = os_path.join(basepath, key.to_path)
+            dirpath = os_path.join(self._basepath, key.to_path)
             rmtree(dirpath)
             self._keys.remove(key)
-            # Remove possibly empty directories.
-            upper_dir = strip_path_tail(dirpath)
-            while (upper_dir != basepath) and (not listdir(upper_dir)):
-                rmdir(upper_dir)
+            # Remove possibly empty directories, only among intermediate
+            # partition folders.
+            upper_dir = dirpath
+            for _ in range(self._indexer.depth - 1):
                 upper_dir = strip_path_tail(upper_dir)
+                if listdir(upper_dir):
+                    break
+                rmdir(upper_dir)
-- 
2.43.0


From fa6280fe12aa6be57c47030e0588791b68ae2a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 17/31] fix: restore line endings changed by previous commits

---
 oups/store/indexer.py |  812 +++++++++++++-------------
 oups/store/router.py  |  248 ++++----
 oups/store/writer.py  | 1262 ++++++++++++++++++++---------------------
 3 files changed, 1161 insertions(+), 1161 deletions(-)

diff --git a/oups/store/indexer.py b/oups/store/indexer.py
index c807974..204a380 100644
--- a/oups/store/indexer.py
+++ b/oups/store/indexer.py
@@ -1,406 +1,406 @@
-#!/usr/bin/env python3
-"""
-Created on Wed Dec  1 18:35:00 2021.
-
-@author: yoh
-
-"""
-import re
-from dataclasses import dataclass
-from dataclasses import fields
-from dataclasses import is_dataclass
-from functools import partial
-from typing import Any, Callable, Iterator, List, Tuple, Type, Union
-
-from oups.store.defines import DIR_SEP
-
-
-# Float removed to prevent having '.' in field values.
-TYPE_ACCEPTED = {int, str}
-# Default fields separator, if not modified by user.
-DEFAULT_FIELDS_SEP = "-"
-# Characters forbidden in field value.
-# 'fields_sep' is also included at runtime before check.
-FORBIDDEN_CHARS = (DIR_SEP, ".")
-
-
-def _is_dataclass_instance(obj: Any) -> bool:
-    # Check if a class is an instance of a dataclass and not a dataclass
-    # itself, as per
-    # https://docs.python.org/3/library/dataclasses.html#dataclasses.is_dataclass
-    return is_dataclass(obj) and not isinstance(obj, type)
-
-
-def _dataclass_instance_to_dict(obj: dataclass) -> dict:
-    # Shallow copy, not possible to use 'asdict()', as per
-    # https://docs.python.org/3/library/dataclasses.html#dataclasses.asdict
-    return {field.name: getattr(obj, field.name) for field in fields(obj)}
-
-
-def _dataclass_instance_to_lists(obj: dataclass) -> Iterator[List[Any]]:
-    """
-    Yield items as lists of fields values.
-
-    If a new dataclass instance is the last field, its fields values are
-    yielded as next item, and so on...
-
-    Parameters
-    ----------
-    obj : dataclass
-        May contain nested dataclass instances.
-
-    Returns
-    -------
-    Iterator[List[Any]]
-        Yields list of fields values.
-
-    """
-    fields = list(_dataclass_instance_to_dict(obj).values())
-    if fields:
-        yield fields
-        if _is_dataclass_instance(fields[-1]):
-            yield from _dataclass_instance_to_lists(fields[-1])
-
-
-def _validate_toplevel_instance(toplevel: dataclass):
-    """
-    Validate a 'toplevel'-decorated data class instance.
-
-    Check field type is only among 'int', 'str' or another dataclass instance.
-    Check that there is at most only one dataclass instance per nesting level,
-    and if present, it is not the 1st field, nor the last field.
-    Raise a TypeError or ValueError if instance is not compliant.
-
-    Parameters
-    ----------
-    toplevel : dataclass
-
-    """
-    forbidden_chars = (toplevel.fields_sep, *FORBIDDEN_CHARS)
-    for fields_ in _dataclass_instance_to_lists(toplevel):
-        number_of_fields = len(fields_)
-        for counter, field in enumerate(fields_):
-            if _is_dataclass_instance(field):
-                # If a dataclass instance.
-                if not counter:
-                    # A dataclass instance cannot be the only field.
-                    # Detecting if it is in last position suffice, except if
-                    # there is only one field, in which case it is also in
-                    # 1st position.
-                    raise TypeError(
-                        "a dataclass instance cannot be the only \
-field of a level.",
-                    )
-                if counter + 1 != number_of_fields:
-                    # A dataclass instance cannot be in last position.
-                    raise TypeError(
-                        "a dataclass instance is only possible in \
-last position.",
-                    )
-            else:
-                # If not a dataclass instance.
-                field_as_str = str(field)
-                if any((symb in field_as_str for symb in forbidden_chars)):
-                    raise ValueError(
-                        f"use of a forbidden character among \
-{forbidden_chars} is not possible in {field_as_str}.",
-                    )
-            if not ((type(field) in TYPE_ACCEPTED) or _is_dataclass_instance(field)):
-                raise TypeError(f"field type {type(field)} not possible.")
-        if (fields_[:-1] if _is_dataclass_instance(fields_[-1]) else fields_) == [""]:
-            # Level would have no directory.
-            raise ValueError("an empty string is not possible for the only field of a level.")
-    return
-
-
-def _dataclass_instance_to_str(toplevel: dataclass, as_path: bool = False) -> str:
-    """
-    Return a dataclass instance as a string.
-
-    The different levels in this string are either separated with 'fields_sep'
-    or with DIR_SEP.
-
-    Parameters
-    ----------
-    toplevel : dataclass
-    as_path : bool, default False
-        Defines separator to be used between levels of the dataclass.
-        If True, use DIR_SEP ('/');
-        If False, use 'fields_sep'
-
-    Returns
-    -------
-    str
-        All fields values, joined:
-            - At a same level, using 'fields_sep';
-            - Between different levels, either 'fields_sep', either DIR_SEP,
-              depending 'as_path'.
-
-    """
-    levels_sep = DIR_SEP if as_path else toplevel.fields_sep
-    to_str = []
-    for fields_ in _dataclass_instance_to_lists(toplevel):
-        # Relying on the fact that only the tail can be a dataclass instance.
-        if _is_dataclass_instance(fields_[-1]):
-            fields_ = fields_[:-1]
-        to_str.append(toplevel.fields_sep.join(map(str, fields_)))
-    return levels_sep.join(to_str)
-
-
-def _dataclass_fields_types_to_lists(cls: Type[dataclass]) -> List[List[Any]]:
-    """
-    Type of fields in dataclass returned in lists.
-
-    Return the type of each field, one list per level, and all levels in a
-    list.
-
-    Parameters
-    ----------
-    cls : Type[dataclass]
-        A dataclass instance or a dataclass.
-
-    Returns
-    -------
-    List[List[Any]]
-        List of fields types lists, one list per level.
-
-    """
-    types = [[field.type for field in fields(cls)]]
-    while is_dataclass(last := types[-1][-1]):
-        types.append([field.type for field in fields(last)])
-    return types
-
-
-def _dataclass_instance_from_str(cls: Type[dataclass], string: str) -> Union[dataclass, None]:
-    """
-    Return a dataclass instance derived from input string.
-
-    Level separator can either be DIR_SEP or 'cls.fields_sep'.
-    If dataclass '__init__' fails, or if the string is not the one (or the path)
-    of obtained instance, `None` is returned.
-
-    Parameters
-    ----------
-    cls : Type[dataclass]
-        Dataclass to be used for generating dataclass instance.
-    string : str
-        String representation of the dataclass instance (using either
-        'cls.fields_sep' of DIR_SEP)
-
-    Returns
-    -------
-    Union[dataclass, None]
-        Dataclass instance derived from input string.
-
-    """
-    types = _dataclass_fields_types_to_lists(cls)
-    # Split string depending 'fields_sep' and 'DIR_SEP', into different fields.
-    fields_sep = cls.fields_sep
-    strings_as_list = re.split(rf"{DIR_SEP}|{re.escape(fields_sep)}", string)
-    # Manages last level first.
-    level_types = types.pop()  # remove last element
-    level_length = len(level_types)
-    try:
-        level = [
-            field_type(field_as_string)
-            for field_type, field_as_string in zip(level_types, strings_as_list[-level_length:])
-        ]
-        while types:
-            strings_as_list = strings_as_list[:-level_length]
-            level_types = types.pop()  # remove last element
-            level_length = len(level_types) - 1
-            # Relying on the fact that a dataclass is necessarily the last
-            # field.
-            level = [
-                field_type(field_as_string)
-                for field_type, field_as_string in zip(
-                    level_types[:-1],
-                    strings_as_list[-level_length:],
-                )
-            ] + [level_types[-1](*level)]
-        key = cls(*level)
-    except (TypeError, ValueError):
-        # TypeError if the number of arguments for instantiation of a
-        # dataclass is not correct (meaning the split has not been done
-        # with the right 'fields_sep' character).
-        # ValueError if there is a type mismatch, for instance when 'int'
-        # is initialized from a string, or if a value is forbidden.
-        return None
-    # Several strings can be split into the same values ('1' and '01' with an
-    # 'int', additional separators...). Only those of the key are retained.
-    return key if string in (str(key), key.to_path) else None
-
-
-def _get_depth(obj: Union[dataclass, Type[dataclass]]) -> int:
-    """
-    Return number of levels, including 'toplevel'.
-
-    To be decorated with '@property'.
-
-    """
-    depth = 1
-    level = obj
-    while is_dataclass(level := fields(level)[-1].type):
-        depth += 1
-    return depth
-
-
-def _reduce(obj: Type[dataclass]) -> Tuple[Callable, Tuple[str]]:
-    """
-    Reduce function for making 'Indexer' serializable.
-
-    Returns
-    -------
-    Tuple[Callable, Tuple[str]]
-        See '__reduce' standard interface.
-        https://docs.python.org/3/library/pickle.html#object.__reduce__
-
-    """
-    return obj.from_str, (str(obj),)
-
-
-class TopLevel(type):
-    """
-    Metaclass defining class properties of '@toplevel'-decorated class.
-    """
-
-    @property
-    def fields_sep(cls) -> str:
-        """
-        Return field separator.
-        """
-        return cls._fields_sep
-
-    @property
-    def depth(cls) -> int:
-        """
-        Return depth, i.e. number of levels.
-        """
-        return cls._depth
-
-
-def toplevel(index_class=None, *, fields_sep: str = DEFAULT_FIELDS_SEP):
-    """
-    Turn decorated class into an indexing schema.
-
-    Decorated class is equipped with methods and attributes to use with a
-    ``ParquetSet`` instance.
-    It has to be defined as one would define a class decorated by ``@dataclass``.
-
-    Parameters
-    ----------
-    fields_sep : str, default '.'
-        Character to use as separator between fields of the dataclass.
-
-    Returns
-    -------
-    Decorated class.
-
-    Attributes
-    ----------
-    fields_sep: str
-        Fields separator (can't assign).
-    depth: int
-        Number of levels, including 'toplevel' (can't assign).
-
-    Notes
-    -----
-    ``@dataclass`` is actually called when decorating with ``@toplevel`` with
-    parameters set to:
-
-      - ``order=True``,
-      - ``frozen=True``
-
-    When class is instantiated, a validation step is conducted on attributes
-    types and values.
-
-      - An instance can only be composed with ``int``, ``str`` or a dataclass
-        object coming in last position;
-      - Value of attribute can not incorporate forbidden characters like ``/``
-        and ``self.fields_sep``.
-
-    """
-
-    def tweak(index_class):
-        # Re-create 'index_class' as a 'TopLevel'-inheriting class to equip it
-        # with class properties 'depth' and 'fields_sep'
-        # (as per https://stackoverflow.com/questions/5120688)
-        # Explicitly add property to OtherClass.__dict__
-        # (as per https://stackoverflow.com/questions/70233891)
-        d = dict(index_class.__dict__)
-        d.update({"fields_sep": TopLevel.fields_sep, "depth": TopLevel.depth})
-        index_class = TopLevel(index_class.__name__, index_class.__bases__, d)
-        # Wrap with `@dataclass`.
-        # TODO
-        # When python 3.10 is more wide spread, set 'slot=True' to save RAM.
-        index_class = dataclass(index_class, order=True, frozen=True)
-
-        # Equip 'index_class' with what is needed to be a 'toplevel'.
-        # Dunders: modified '__init__', modified '__str__'
-        # Copy of original __init__ to call it without recursion.
-        index_class_init = index_class.__init__
-
-        def __init__(self, *args, check: bool = True, **kws):
-            #            object.__setattr__(self, "_fields_sep", fields_sep)
-            index_class_init(self, *args, **kws)
-            if check:
-                # Validate dataclass instance.
-                _validate_toplevel_instance(self)
-
-        index_class.__init__ = __init__
-        index_class.__str__ = _dataclass_instance_to_str
-
-        # Class properties: 'fields_sep', 'depth'
-        index_class._fields_sep = fields_sep
-        index_class._depth = _get_depth(index_class)
-
-        # Class instance properties: 'to_path'
-        _dataclass_instance_to_str_p = partial(_dataclass_instance_to_str, as_path=True)
-        index_class.to_path = property(_dataclass_instance_to_str_p)
-
-        # Classmethods: 'from_str', 'from_path'.
-        index_class.from_path = classmethod(_dataclass_instance_from_str)
-        index_class.from_str = classmethod(_dataclass_instance_from_str)
-
-        # Serialization.
-        index_class.__reduce__ = _reduce
-
-        return index_class
-
-    if index_class:
-        # Calling decorator without other parameters.
-        return tweak(index_class)
-    # Calling decorator with other parameters.
-    return tweak
-
-
-def is_toplevel(toplevel) -> bool:
-    """
-    Return `True` if `toplevel`-decorated class.
-
-    Returns 'True' if 'toplevel' (class or instance) has been decorated with
-    '@toplevel'. It checks presence 'fields_sep' attribute and 'from_path' method.
-
-    """
-    return hasattr(toplevel, "fields_sep") and callable(getattr(toplevel, "from_path", None))
-
-
-def sublevel(index_class):
-    """
-    Define a subdirectory level.
-
-    This decorator really is an alias of ``@dataclass`` decorator, with
-    parameters set to:
-
-        - ``order=True``,
-        - ``frozen=True``
-
-    """
-    # Wrap with `@dataclass`.
-    # TODO
-    # When python 3.10 is more wide spread, set 'slot=True' to save RAM.
-    return dataclass(index_class, order=True, frozen=True)
-
-
-# TODO
-# - deep copy of an Indexer is currently not possible. Work this out.
+#!/usr/bin/env python3
+"""
+Created on Wed Dec  1 18:35:00 2021.
+
+@author: yoh
+
+"""
+import re
+from dataclasses import dataclass
+from dataclasses import fields
+from dataclasses import is_dataclass
+from functools import partial
+from typing import Any, Callable, Iterator, List, Tuple, Type, Union
+
+from oups.store.defines import DIR_SEP
+
+
+# Float removed to prevent having '.' in field values.
+TYPE_ACCEPTED = {int, str}
+# Default fields separator, if not modified by user.
+DEFAULT_FIELDS_SEP = "-"
+# Characters forbidden in field value.
+# 'fields_sep' is also included at runtime before check.
+FORBIDDEN_CHARS = (DIR_SEP, ".")
+
+
+def _is_dataclass_instance(obj: Any) -> bool:
+    # Check if a class is an instance of a dataclass and not a dataclass
+    # itself, as per
+    # https://docs.python.org/3/library/dataclasses.html#dataclasses.is_dataclass
+    return is_dataclass(obj) and not isinstance(obj, type)
+
+
+def _dataclass_instance_to_dict(obj: dataclass) -> dict:
+    # Shallow copy, not possible to use 'asdict()', as per
+    # https://docs.python.org/3/library/dataclasses.html#dataclasses.asdict
+    return {field.name: getattr(obj, field.name) for field in fields(obj)}
+
+
+def _dataclass_instance_to_lists(obj: dataclass) -> Iterator[List[Any]]:
+    """
+    Yield items as lists of fields values.
+
+    If a new dataclass instance is the last field, its fields values are
+    yielded as next item, and so on...
+
+    Parameters
+    ----------
+    obj : dataclass
+        May contain nested dataclass instances.
+
+    Returns
+    -------
+    Iterator[List[Any]]
+        Yields list of fields values.
+
+    """
+    fields = list(_dataclass_instance_to_dict(obj).values())
+    if fields:
+        yield fields
+        if _is_dataclass_instance(fields[-1]):
+            yield from _dataclass_instance_to_lists(fields[-1])
+
+
+def _validate_toplevel_instance(toplevel: dataclass):
+    """
+    Validate a 'toplevel'-decorated data class instance.
+
+    Check field type is only among 'int', 'str' or another dataclass instance.
+    Check that there is at most only one dataclass instance per nesting level,
+    and if present, it is not the 1st field, nor the last field.
+    Raise a TypeError or ValueError if instance is not compliant.
+
+    Parameters
+    ----------
+    toplevel : dataclass
+
+    """
+    forbidden_chars = (toplevel.fields_sep, *FORBIDDEN_CHARS)
+    for fields_ in _dataclass_instance_to_lists(toplevel):
+        number_of_fields = len(fields_)
+        for counter, field in enumerate(fields_):
+            if _is_dataclass_instance(field):
+                # If a dataclass instance.
+                if not counter:
+                    # A dataclass instance cannot be the only field.
+                    # Detecting if it is in last position suffice, except if
+                    # there is only one field, in which case it is also in
+                    # 1st position.
+                    raise TypeError(
+                        "a dataclass instance cannot be the only \
+field of a level.",
+                    )
+                if counter + 1 != number_of_fields:
+                    # A dataclass instance cannot be in last position.
+                    raise TypeError(
+                        "a dataclass instance is only possible in \
+last position.",
+                    )
+            else:
+                # If not a dataclass instance.
+                field_as_str = str(field)
+                if any((symb in field_as_str for symb in forbidden_chars)):
+                    raise ValueError(
+                        f"use of a forbidden character among \
+{forbidden_chars} is not possible in {field_as_str}.",
+                    )
+            if not ((type(field) in TYPE_ACCEPTED) or _is_dataclass_instance(field)):
+                raise TypeError(f"field type {type(field)} not possible.")
+        if (fields_[:-1] if _is_dataclass_instance(fields_[-1]) else fields_) == [""]:
+            # Level would have no directory.
+            raise ValueError("an empty string is not possible for the only field of a level.")
+    return
+
+
+def _dataclass_instance_to_str(toplevel: dataclass, as_path: bool = False) -> str:
+    """
+    Return a dataclass instance as a string.
+
+    The different levels in this string are either separated with 'fields_sep'
+    or with DIR_SEP.
+
+    Parameters
+    ----------
+    toplevel : dataclass
+    as_path : bool, default False
+        Defines separator to be used between levels of the dataclass.
+        If True, use DIR_SEP ('/');
+        If False, use 'fields_sep'
+
+    Returns
+    -------
+    str
+        All fields values, joined:
+            - At a same level, using 'fields_sep';
+            - Between different levels, either 'fields_sep', either DIR_SEP,
+              depending 'as_path'.
+
+    """
+    levels_sep = DIR_SEP if as_path else toplevel.fields_sep
+    to_str = []
+    for fields_ in _dataclass_instance_to_lists(toplevel):
+        # Relying on the fact that only the tail can be a dataclass instance.
+        if _is_dataclass_instance(fields_[-1]):
+            fields_ = fields_[:-1]
+        to_str.append(toplevel.fields_sep.join(map(str, fields_)))
+    return levels_sep.join(to_str)
+
+
+def _dataclass_fields_types_to_lists(cls: Type[dataclass]) -> List[List[Any]]:
+    """
+    Type of fields in dataclass returned in lists.
+
+    Return the type of each field, one list per level, and all levels in a
+    list.
+
+    Parameters
+    ----------
+    cls : Type[dataclass]
+        A dataclass instance or a dataclass.
+
+    Returns
+    -------
+    List[List[Any]]
+        List of fields types lists, one list per level.
+
+    """
+    types = [[field.type for field in fields(cls)]]
+    while is_dataclass(last := types[-1][-1]):
+        types.append([field.type for field in fields(last)])
+    return types
+
+
+def _dataclass_instance_from_str(cls: Type[dataclass], string: str) -> Union[dataclass, None]:
+    """
+    Return a dataclass instance derived from input string.
+
+    Level separator can either be DIR_SEP or 'cls.fields_sep'.
+    If dataclass '__init__' fails, or if the string is not the one (or the path)
+    of obtained instance, `None` is returned.
+
+    Parameters
+    ----------
+    cls : Type[dataclass]
+        Dataclass to be used for generating dataclass instance.
+    string : str
+        String representation of the dataclass instance (using either
+        'cls.fields_sep' of DIR_SEP)
+
+    Returns
+    -------
+    Union[dataclass, None]
+        Dataclass instance derived from input string.
+
+    """
+    types = _dataclass_fields_types_to_lists(cls)
+    # Split string depending 'fields_sep' and 'DIR_SEP', into different fields.
+    fields_sep = cls.fields_sep
+    strings_as_list = re.split(rf"{DIR_SEP}|{re.escape(fields_sep)}", string)
+    # Manages last level first.
+    level_types = types.pop()  # remove last element
+    level_length = len(level_types)
+    try:
+        level = [
+            field_type(field_as_string)
+            for field_type, field_as_string in zip(level_types, strings_as_list[-level_length:])
+        ]
+        while types:
+            strings_as_list = strings_as_list[:-level_length]
+            level_types = types.pop()  # remove last element
+            level_length = len(level_types) - 1
+            # Relying on the fact that a dataclass is necessarily the last
+            # field.
+            level = [
+                field_type(field_as_string)
+                for field_type, field_as_string in zip(
+                    level_types[:-1],
+                    strings_as_list[-level_length:],
+                )
+            ] + [level_types[-1](*level)]
+        key = cls(*level)
+    except (TypeError, ValueError):
+        # TypeError if the number of arguments for instantiation of a
+        # dataclass is not correct (meaning the split has not been done
+        # with the right 'fields_sep' character).
+        # ValueError if there is a type mismatch, for instance when 'int'
+        # is initialized from a string, or if a value is forbidden.
+        return None
+    # Several strings can be split into the same values ('1' and '01' with an
+    # 'int', additional separators...). Only those of the key are retained.
+    return key if string in (str(key), key.to_path) else None
+
+
+def _get_depth(obj: Union[dataclass, Type[dataclass]]) -> int:
+    """
+    Return number of levels, including 'toplevel'.
+
+    To be decorated with '@property'.
+
+    """
+    depth = 1
+    level = obj
+    while is_dataclass(level := fields(level)[-1].type):
+        depth += 1
+    return depth
+
+
+def _reduce(obj: Type[dataclass]) -> Tuple[Callable, Tuple[str]]:
+    """
+    Reduce function for making 'Indexer' serializable.
+
+    Returns
+    -------
+    Tuple[Callable, Tuple[str]]
+        See '__reduce' standard interface.
+        https://docs.python.org/3/library/pickle.html#object.__reduce__
+
+    """
+    return obj.from_str, (str(obj),)
+
+
+class TopLevel(type):
+    """
+    Metaclass defining class properties of '@toplevel'-decorated class.
+    """
+
+    @property
+    def fields_sep(cls) -> str:
+        """
+        Return field separator.
+        """
+        return cls._fields_sep
+
+    @property
+    def depth(cls) -> int:
+        """
+        Return depth, i.e. number of levels.
+        """
+        return cls._depth
+
+
+def toplevel(index_class=None, *, fields_sep: str = DEFAULT_FIELDS_SEP):
+    """
+    Turn decorated class into an indexing schema.
+
+    Decorated class is equipped with methods and attributes to use with a
+    ``ParquetSet`` instance.
+    It has to be defined as one would define a class decorated by ``@dataclass``.
+
+    Parameters
+    ----------
+    fields_sep : str, default '.'
+        Character to use as separator between fields of the dataclass.
+
+    Returns
+    -------
+    Decorated class.
+
+    Attributes
+    ----------
+    fields_sep: str
+        Fields separator (can't assign).
+    depth: int
+        Number of levels, including 'toplevel' (can't assign).
+
+    Notes
+    -----
+    ``@dataclass`` is actually called when decorating with ``@toplevel`` with
+    parameters set to:
+
+      - ``order=True``,
+      - ``frozen=True``
+
+    When class is instantiated, a validation step is conducted on attributes
+    types and values.
+
+      - An instance can only be composed with ``int``, ``str`` or a dataclass
+        object coming in last position;
+      - Value of attribute can not incorporate forbidden characters like ``/``
+        and ``self.fields_sep``.
+
+    """
+
+    def tweak(index_class):
+        # Re-create 'index_class' as a 'TopLevel'-inheriting class to equip it
+        # with class properties 'depth' and 'fields_sep'
+        # (as per https://stackoverflow.com/questions/5120688)
+        # Explicitly add property to OtherClass.__dict__
+        # (as per https://stackoverflow.com/questions/70233891)
+        d = dict(index_class.__dict__)
+        d.update({"fields_sep": TopLevel.fields_sep, "depth": TopLevel.depth})
+        index_class = TopLevel(index_class.__name__, index_class.__bases__, d)
+        # Wrap with `@dataclass`.
+        # TODO
+        # When python 3.10 is more wide spread, set 'slot=True' to save RAM.
+        index_class = dataclass(index_class, order=True, frozen=True)
+
+        # Equip 'index_class' with what is needed to be a 'toplevel'.
+        # Dunders: modified '__init__', modified '__str__'
+        # Copy of original __init__ to call it without recursion.
+        index_class_init = index_class.__init__
+
+        def __init__(self, *args, check: bool = True, **kws):
+            #            object.__setattr__(self, "_fields_sep", fields_sep)
+            index_class_init(self, *args, **kws)
+            if check:
+                # Validate dataclass instance.
+                _validate_toplevel_instance(self)
+
+        index_class.__init__ = __init__
+        index_class.__str__ = _dataclass_instance_to_str
+
+        # Class properties: 'fields_sep', 'depth'
+        index_class._fields_sep = fields_sep
+        index_class._depth = _get_depth(index_class)
+
+        # Class instance properties: 'to_path'
+        _dataclass_instance_to_str_p = partial(_dataclass_instance_to_str, as_path=True)
+        index_class.to_path = property(_dataclass_instance_to_str_p)
+
+        # Classmethods: 'from_str', 'from_path'.
+        index_class.from_path = classmethod(_dataclass_instance_from_str)
+        index_class.from_str = classmethod(_dataclass_instance_from_str)
+
+        # Serialization.
+        index_class.__reduce__ = _reduce
+
+        return index_class
+
+    if index_class:
+        # Calling decorator without other parameters.
+        return tweak(index_class)
+    # Calling decorator with other parameters.
+    return tweak
+
+
+def is_toplevel(toplevel) -> bool:
+    """
+    Return `True` if `toplevel`-decorated class.
+
+    Returns 'True' if 'toplevel' (class or instance) has been decorated with
+    '@toplevel'. It checks presence 'fields_sep' attribute and 'from_path' method.
+
+    """
+    return hasattr(toplevel, "fields_sep") and callable(getattr(toplevel, "from_path", None))
+
+
+def sublevel(index_class):
+    """
+    Define a subdirectory level.
+
+    This decorator really is an alias of ``@dataclass`` decorator, with
+    parameters set to:
+
+        - ``order=True``,
+        - ``frozen=True``
+
+    """
+    # Wrap with `@dataclass`.
+    # TODO
+    # When python 3.10 is more wide spread, set 'slot=True' to save RAM.
+    return dataclass(index_class, order=True, frozen=True)
+
+
+# TODO
+# - deep copy of an Indexer is currently not possible. Work this out.
diff --git a/oups/store/router.py b/oups/store/router.py
index 0d341c6..a0893bb 100644
--- a/oups/store/router.py
+++ b/oups/store/router.py
@@ -1,124 +1,124 @@
-#!/usr/bin/env python3
-"""
-Created on Wed Dec 26 22:30:00 2021.
-
-@author: yoh
-
-"""
-from functools import cached_property
-from os import scandir
-
-from cloudpickle import loads
-from fastparquet import ParquetFile
-from fastparquet.api import statistics
-from vaex import open_many
-
-from oups.store.defines import DIR_SEP
-from oups.store.writer import OUPS_METADATA_KEY
-
-
-class ParquetHandle:
-    """
-    Handle to parquet dataset and statistics on disk.
-
-    Attributes
-    ----------
-    dirpath : str
-        Directory path from where to load data.
-    pf : ParquetFile
-        `ParquetFile` (fastparquet) instance.
-    pdf : pDataframe
-        Dataframe in pandas format.
-    vdf : vDataFrame
-        Dataframe in vaex format.
-
-    Methods
-    -------
-    min_max(col)
-        Retrieve min and max from statistics for a column.
-
-    """
-
-    def __init__(self, dirpath: str):
-        """
-        Instantiate parquet handle.
-
-        Parameters
-        ----------
-        dirpath : str
-            Directory path from where to load data.
-
-        """
-        self._dirpath = dirpath
-
-    @property
-    def dirpath(self):
-        """
-        Return dirpath.
-        """
-        return self._dirpath
-
-    @cached_property
-    def pf(self):
-        """
-        Return handle to data through a parquet file.
-        """
-        return ParquetFile(self._dirpath)
-
-    @property
-    def pdf(self):
-        """
-        Return data as a pandas dataframe.
-        """
-        return ParquetFile(self._dirpath).to_pandas()
-
-    @property
-    def vdf(self):
-        """
-        Return handle to data through a vaex dataframe.
-        """
-        # To circumvent vaex lexicographic filename sorting to order row
-        # groups, ordering the list of files is required.
-        files = [file.name for file in scandir(self._dirpath) if file.name[-7:] == "parquet"]
-        files.sort(key=lambda x: int(x[5:-8]))
-        prefix_dirpath = f"{str(self._dirpath)}{DIR_SEP}".__add__
-        return open_many(map(prefix_dirpath, files))
-
-    def min_max(self, col: str) -> tuple:
-        """
-        Return min and max of values of a column.
-
-        Parameters
-        ----------
-        col : str
-            Column name.
-
-        Returns
-        -------
-        tuple
-            Min and max values of column.
-
-        """
-        pf = ParquetFile(self._dirpath)
-        # Statistics per row group: a row group with only null values in this
-        # column has no min nor max.
-        stats = [statistics(pf[idx]) for idx in range(len(pf.row_groups))]
-        mins = [val for rg in stats for val in rg["min"][col] if val is not None]
-        maxs = [val for rg in stats for val in rg["max"][col] if val is not None]
-        return (min(mins, default=None), max(maxs, default=None))
-
-    @property
-    def metadata(self) -> dict:
-        """
-        Return metadata stored when using `oups.writer.write()`.
-        """
-        return self.pf.key_value_metadata
-
-    @property
-    def _oups_metadata(self) -> dict:
-        """
-        Return specific oups metadata.
-        """
-        md = self.pf.key_value_metadata
-        if OUPS_METADATA_KEY in md:
-            return loads(md[OUPS_METADATA_KEY])
+#!/usr/bin/env python3
+"""
+Created on Wed Dec 26 22:30:00 2021.
+
+@author: yoh
+
+"""
+from functools import cached_property
+from os import scandir
+
+from cloudpickle import loads
+from fastparquet import ParquetFile
+from fastparquet.api import statistics
+from vaex import open_many
+
+from oups.store.defines import DIR_SEP
+from oups.store.writer import OUPS_METADATA_KEY
+
+
+class ParquetHandle:
+    """
+    Handle to parquet dataset and statistics on disk.
+
+    Attributes
+    ----------
+    dirpath : str
+        Directory path from where to load data.
+    pf : ParquetFile
+        `ParquetFile` (fastparquet) instance.
+    pdf : pDataframe
+        Dataframe in pandas format.
+    vdf : vDataFrame
+        Dataframe in vaex format.
+
+    Methods
+    -------
+    min_max(col)
+        Retrieve min and max from statistics for a column.
+
+    """
+
+    def __init__(self, dirpath: str):
+        """
+        Instantiate parquet handle.
+
+        Parameters
+        ----------
+        dirpath : str
+            Directory path from where to load data.
+
+        """
+        self._dirpath = dirpath
+
+    @property
+    def dirpath(self):
+        """
+        Return dirpath.
+        """
+        return self._dirpath
+
+    @cached_property
+    def pf(self):
+        """
+        Return handle to data through a parquet file.
+        """
+        return ParquetFile(self._dirpath)
+
+    @property
+    def pdf(self):
+        """
+        Return data as a pandas dataframe.
+        """
+        return ParquetFile(self._dirpath).to_pandas()
+
+    @property
+    def vdf(self):
+        """
+        Return handle to data through a vaex dataframe.
+        """
+        # To circumvent vaex lexicographic filename sorting to order row
+        # groups, ordering the list of files is required.
+        files = [file.name for file in scandir(self._dirpath) if file.name[-7:] == "parquet"]
+        files.sort(key=lambda x: int(x[5:-8]))
+        prefix_dirpath = f"{str(self._dirpath)}{DIR_SEP}".__add__
+        return open_many(map(prefix_dirpath, files))
+
+    def min_max(self, col: str) -> tuple:
+        """
+        Return min and max of values of a column.
+
+        Parameters
+        ----------
+        col : str
+            Column name.
+
+        Returns
+        -------
+        tuple
+            Min and max values of column.
+
+        """
+        pf = ParquetFile(self._dirpath)
+        # Statistics per row group: a row group with only null values in this
+        # column has no min nor max.
+        stats = [statistics(pf[idx]) for idx in range(len(pf.row_groups))]
+        mins = [val for rg in stats for val in rg["min"][col] if val is not None]
+        maxs = [val for rg in stats for val in rg["max"][col] if val is not None]
+        return (min(mins, default=None), max(maxs, default=None))
+
+    @property
+    def metadata(self) -> dict:
+        """
+        Return metadata stored when using `oups.writer.write()`.
+        """
+        return self.pf.key_value_metadata
+
+    @property
+    def _oups_metadata(self) -> dict:
+        """
+        Return specific oups metadata.
+        """
+        md = self.pf.key_value_metadata
+        if OUPS_METADATA_KEY in md:
+            return loads(md[OUPS_METADATA_KEY])
diff --git a/oups/store/writer.py b/oups/store/writer.py
index df20868..762014d 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -1,631 +1,631 @@
-#!/usr/bin/env python3
-"""
-Created on Wed Dec  6 22:30:00 2021.
-
-@author: yoh
-
-"""
-from ast import literal_eval
-from os import listdir as os_listdir
-from os import path as os_path
-from pickle import dumps
-from pickle import loads
-from typing import Dict, Hashable, List, Tuple, Union
-
-from fastparquet import ParquetFile
-from fastparquet import write as fp_write
-from fastparquet.api import filter_row_groups
-from fastparquet.api import statistics
-from fastparquet.util import update_custom_metadata
-from numpy import searchsorted as np_searchsorted
-from numpy import unique as np_unique
-from pandas import DataFrame as pDataFrame
-from pandas import Index
-from pandas import MultiIndex
-from vaex import from_pandas
-from vaex import open_many
-from vaex.dataframe import DataFrame as vDataFrame
-
-
-COMPRESSION = "SNAPPY"
-MAX_ROW_GROUP_SIZE = 6_345_000
-KEY_MAX_ROW_GROUP_SIZE = "max_row_group_size"
-KEY_DUPLICATES_ON = "duplicates_on"
-# Notes to any dev.
-# Store any oups-specific metadata in this dict, such as oups-based application
-# metadata.
-# When appending new data, use `OUPS_METADATA.update()`.
-# `OUPS_METADATA` can be used as a buffer, to keep in memory the metadata to
-# be updated, till a write is triggered.
-# Metadata itself should be within a nested dict, referred to by a `md_key`.
-# By use of a `md_key`, management in parallel of metadata for several keys is
-# possible (i.e. several dataset in difference `ParquetFile`).
-OUPS_METADATA = {}
-# In a fastparquet `ParquetFile`, oups-specific metadata is stored as value for
-# key `OUPS_METADATA_KEY`.
-OUPS_METADATA_KEY = "oups"
-
-
-def iter_dataframe(
-    data: Union[pDataFrame, vDataFrame],
-    max_row_group_size: int = None,
-    sharp_on: str = None,
-    duplicates_on: Union[str, List[str]] = None,
-):
-    """
-    Yield dataframe chunks.
-
-    Parameters
-    ----------
-    data : Union[pDataFrame, vDataFrame]
-        Data to split in row groups.
-    max_row_group_size : int, optional
-        Max size of row groups. It is a max as duplicates are dropped by row
-        group to be written, hereby reducing the row group size (if
-        ``duplicates_on`` parameter is set).
-        If not set, default to ``6_345_000``.
-    sharp_on : str, optional
-        Name of column where to check that ends of bins (which split the data
-        to be written) do not fall in the middle of duplicate values.
-        This parameter is required when ``duplicates_on`` is used.
-        This option requires a vaex dataframe.
-        If not set, default to ``None``.
-    duplicates_on : Union[str, List[str]], optional
-        If set, drop duplicates based on list of column names, keeping last.
-        Only duplicates within the same row group to be written are identified.
-        This option requires a vaex dataframe.
-        If not set, default to ``None``.
-        If an empty list ``[]``, all columns are used to identify duplicates.
-
-    Yields
-    ------
-    pDataFrame
-        Chunk of data.
-
-    Notes
-    -----
-    - Because duplicates are identified within a same row group, it is
-      required to set ``sharp_on`` when using ``duplicates_on``, so that
-      duplicates all fall in a same row group. This implies that duplicates
-      have to share the same value in ``sharp_on`` column.
-
-    """
-    # TODO: implement 'group_as' (use of 'ordered_on' column) to replicate
-    #  row group 'boundaries' between 2 different data sets.
-    if max_row_group_size is None:
-        max_row_group_size = MAX_ROW_GROUP_SIZE
-    if isinstance(data, vDataFrame):
-        # Drop any possible lazy indexing, to make the length of data equals
-        # its filtered length.
-        data = data.extract()
-    elif sharp_on or isinstance(duplicates_on, list):
-        raise TypeError("vaex dataframe required when using 'sharp_on' and/or 'duplicates_on'.")
-    # TODO: if dropping duplicates over the full dataset with vaex, then remove
-    # this exception and subsequent conditional cases. It is not necessary any
-    # longer to relate 'sharp_on' and 'duplicates_on'.
-    if duplicates_on is not None:
-        if not sharp_on:
-            raise ValueError(
-                "duplicates are looked for row group per group. For this reason, "
-                "it is compulsory to set 'sharp_on' while setting 'duplicates_on'.",
-            )
-        elif isinstance(duplicates_on, list):
-            if duplicates_on and sharp_on not in duplicates_on:
-                # Case 'not an empty list', and 'ordered_on' not in.
-                duplicates_on = [*duplicates_on, sharp_on]
-        elif duplicates_on != sharp_on:
-            # Case 'duplicates_on' is a single column name, but not
-            # 'sharp_on'.
-            duplicates_on = [duplicates_on, sharp_on]
-    n_rows = len(data)
-    if n_rows:
-        # Define bins to split into row groups.
-        # Acknowledging this piece of code to be an extract from fastparquet.
-        n_parts = (n_rows - 1) // max_row_group_size + 1
-        row_group_size = min((n_rows - 1) // n_parts + 1, n_rows)
-        starts = list(range(0, n_rows, row_group_size))
-    else:
-        # If n_rows=0
-        starts = [0]
-    if sharp_on:
-        # Adjust bins so that they do not end in the middle of duplicate values
-        # in `sharp_on` column.
-        # TODO: shorten this piece of code the day vaex accepts lists of
-        # integers. Line of code currently taken from
-        # vaex-core.vaex.dataframe.__getitem__ (L5230)
-        val_at_start = [
-            data.evaluate(sharp_on, idx, idx + 1, array_type="numpy")[0] for idx in starts
-        ]
-        # TODO: vaex searchsorted kind of broken. Re-try when solved?
-        # https://github.com/vaexio/vaex/issues/1674
-        # Doing with numpy.
-        starts = np_unique(np_searchsorted(data[sharp_on].to_numpy(), val_at_start)).tolist()
-    ends = starts[1:] + [None]
-    if isinstance(data, vDataFrame):
-        if duplicates_on is not None:
-            if duplicates_on == []:
-                columns = data.get_column_names()
-                duplicates_on = columns
-            for start, end in zip(starts, ends):
-                # TODO: possible 'drop_duplicates' directly in vaex as per:
-                # https://github.com/vaexio/vaex/pull/1623
-                # check if answer from
-                # https://github.com/vaexio/vaex/issues/1378
-                # If dropping duplicates with vaex, drop before the chunking.
-                # This removes then the constraints to have 'sharp_on' set and
-                # and in 'duplicates_on'. Duplicates are then dropped over the
-                # full dataset to be written.
-                yield data[start:end].to_pandas_df().drop_duplicates(duplicates_on, keep="last")
-        else:
-            for start, end in zip(starts, ends):
-                yield data[start:end].to_pandas_df()
-    else:
-        for start, end in zip(starts, ends):
-            yield data.iloc[start:end]
-
-
-def to_midx(idx: Index, levels: List[str] = None) -> MultiIndex:
-    """
-    Expand a pandas index into a multi-index.
-
-    Parameters
-    ----------
-    idx : Index
-        Pandas index, with values being string representations of tuples, for
-        instance, for one column, ``"('lev1','lev2')"``.
-    levels : List[str], optional
-        Names of levels to be used when creating the multi-index.
-        If not provided, a generic naming is used, ``[l0, l1, l2, ...]``.
-        If provided list is not long enough for the number of levels, it is
-        completed using a generic naming, ``[..., l4, l5]``.
-
-    Returns
-    -------
-    MultiIndex
-        Pandas multi-index.
-
-    Notes
-    -----
-    The accepted string representations of tuples is one typically obtained
-    after a roundtrip from pandas dataframe with a column multi-index to vaex
-    dataframe and back to pandas. The resulting column index is then a simple
-    one, with string representations for tuples.
-
-    If some column names have string representations of smaller tuples
-    (resulting in fewer index levels), these column names are appended with
-    empty strings '' as required to be of equal levels number than the longest
-    column names.
-
-    """
-    idx_temp = []
-    max_levels = 0
-    for val in idx:
-        try:
-            tup = literal_eval(val)
-        except (ValueError, SyntaxError):
-            tup = None
-        if not isinstance(tup, tuple):
-            # Keep value as string, enclosed in a tuple.
-            tup = (val,)
-        # Get max number of levels.
-        max_levels = max(len(tup), max_levels)
-        idx_temp.append(tup)
-    # Generate names of levels if required.
-    diff = 0
-    if levels is None:
-        levels = []
-        len_lev = 0
-        diff = max_levels
-    elif (len_lev := len(levels)) < max_levels:
-        diff = max_levels - len_lev
-    if diff > 0:
-        levels = [*levels, *(f"l{i}" for i in range(len_lev, max_levels))]
-    # Equalize length of tuples.
-    tuples = [(*t, *[""] * n) if (n := (max_levels - len(t))) else t for t in idx_temp]
-    return MultiIndex.from_tuples(tuples, names=levels)
-
-
-def check_cmidx(cmidx: MultiIndex):
-    """
-    Check if column multi-index complies with fastparquet requirements.
-
-    Library fastparquet requires names for each level in a Multiindex.
-    Also, column names have to be tuple of string.
-
-    Parameters
-    ----------
-    cmidx : MultiIndex
-        MultiIndex to check.
-
-    """
-    # Check level names.
-    if None in cmidx.names:
-        raise ValueError(
-            "not possible to have level name set to None.",
-        )  # If an item of the column name is not a string, turn it into a string.
-    # Check column names.
-    for level in cmidx.levels:
-        for name in level:
-            if not isinstance(name, str):
-                raise TypeError(f"name {name} has to be of type 'string', not '{type(name)}'.")
-
-
-def write_metadata(
-    pf: ParquetFile,
-    metadata: Dict[str, str] = None,
-    md_key: Hashable = None,
-):
-    """
-    Write metadata to disk.
-
-    Update oups-specific metadata and merge to user-defined metadata.
-    "oups-specific" metadata is retrieved from OUPS_METADATA dict.
-
-    Parameters
-    ----------
-    pf : ParquetFile
-        ParquetFile which metadata are to be updated.
-    metadata : Dict[str, str], optional
-        User-defined key-value metadata to write, or update in dataset. Please
-        see fastparquet for updating logic in case of `None` value being used.
-    md_key: Hashable, optional
-        Key to retrieve data in ``OUPS_METADATA`` dict, and write it as
-        specific oups metadata in parquet file. If not provided, all data
-        in ``OUPS_METADATA`` dict are retrieved to be written.
-        This parameter is not compulsory. It is needed for instance in case
-        data is written at same time for several keys. Then the right metadata
-        for each key can be found thanks to this label.
-
-    Notes
-    -----
-    - Specific oups metadata are available in global variable ``OUPS_METADATA``.
-    - Once merged to ``new_metadata``, ``OUPS_METADATA`` is reset.
-    - Update strategy of oups specific metadata depends if key found in
-      ``OUPS_METADATA``metadata` is also found in already existing metadata,
-      as well as its value.
-
-      - If not found in existing, it is added.
-      - If found in existing, it is updated.
-      - If its value is `None`, it is not added, and if found in existing, it
-        is removed from existing.
-
-    """
-    if OUPS_METADATA and md_key and md_key in OUPS_METADATA:
-        # If 'md_key' is 'None', then no metadata from ``OUPS_METADATA`` is
-        # retrieved.
-        new_oups_spec_md = OUPS_METADATA[md_key]
-        if OUPS_METADATA_KEY in (existing_metadata := pf.key_value_metadata):
-            # Case 'append' to existing metadata.
-            # oups-specific metadata is expected to be a dict itself.
-            # To be noticed, 'md_key' is not written itself in metadata to
-            # disk.
-            existing_oups_spec_md = loads(existing_metadata[OUPS_METADATA_KEY])
-            for key, value in new_oups_spec_md.items():
-                if key in existing_oups_spec_md:
-                    if value is None:
-                        # Case 'remove'.
-                        del existing_oups_spec_md[key]
-                    else:
-                        # Case 'update'.
-                        existing_oups_spec_md[key] = value
-                elif value is not None:
-                    # Case 'add'.
-                    existing_oups_spec_md[key] = value
-        else:
-            existing_oups_spec_md = {
-                key: value for key, value in new_oups_spec_md.items() if value is not None
-            }
-        del OUPS_METADATA[md_key]
-
-        if metadata:
-            metadata = {**metadata, OUPS_METADATA_KEY: dumps(existing_oups_spec_md)}
-        else:
-            metadata = {OUPS_METADATA_KEY: dumps(existing_oups_spec_md)}
-
-    if metadata:
-        update_custom_metadata(pf, metadata)
-    pf._write_common_metadata()
-
-
-def write(
-    dirpath: str,
-    data: Union[pDataFrame, vDataFrame],
-    max_row_group_size: int = None,
-    compression: str = COMPRESSION,
-    cmidx_expand: bool = False,
-    cmidx_levels: List[str] = None,
-    ordered_on: Union[str, Tuple[str]] = None,
-    duplicates_on: Union[str, List[str], List[Tuple[str]]] = None,
-    max_nirgs: int = None,
-    metadata: Dict[str, str] = None,
-    md_key: Hashable = None,
-):
-    """
-    Write data to disk at location specified by path.
-
-    Parameters
-    ----------
-    dirpath : str
-        Directory where writing pandas dataframe.
-    data : Union[pDataFrame, vDataFrame]
-        Data to write.
-    max_row_group_size : int, optional
-        Max row group size. If not set, default to ``6_345_000``, which for a
-        dataframe with 6 columns of ``float64`` or ``int64`` results in a
-        memory footprint (RAM) of about 290MB.
-    compression : str, default SNAPPY
-        Algorithm to use for compressing data. This parameter is fastparquet
-        specific. Please see fastparquet documentation for more information.
-    cmidx_expand : bool, default False
-        If `True`, expand column index into a column multi-index.
-        This parameter is only used at creation of the dataset. Once column
-        names are set, they cannot be modified by use of this parameter.
-    cmidx_levels : List[str], optional
-        Names of levels to be used when expanding column names into a
-        multi-index. If not provided, levels are given names 'l1', 'l2', ...
-    ordered_on : Union[str, Tuple[str]] optional
-        Name of the column with respect to which dataset is in ascending order.
-        If column multi-index, name of the column is a tuple.
-        This parameter is optional, and required so that data overlaps between
-        new data and existing recorded row groups can be identified.
-        This parameter is compulsory when ``duplicates_on`` is used.
-        If not set, default to ``None``.
-        It has two effects:
-
-          - it allows knowing 'where' to insert new data into existing data,
-            i.e. completing or correcting past records (but it does not allow
-            to remove prior data).
-          - it ensures that two consecutive row groups do not have duplicate
-            values in column defined by ``ordered_on`` (only in row groups to
-            be written). This implies that all possible duplicates in
-            ``ordered_on`` column will lie in the same row group.
-
-    duplicates_on : Union[str, List[str], List[Tuple[str]]], optional
-        Column names according which 'row duplicates' can be identified (i.e.
-        rows sharing same values on these specific columns) so as to drop
-        them. Duplicates are only identified in new data, and existing
-        recorded row groups that overlap with new data.
-        If duplicates are dropped, only last is kept.
-        To identify row duplicates using all columns, empty list ``[]`` can be
-        used instead of all columns names.
-        If not set, default to ``None``, meaning no row is dropped.
-    max_nirgs : int, optional
-        Max expected number of 'incomplete' row groups. A 'complete' row group
-        is one which size is 'close to' ``max_row_group_size`` (>=90%).
-        To evaluate number of 'incomplete' row groups, only those at the end of
-        an existing dataset are accounted for. 'Incomplete' row groups in the
-        middle of 'complete' row groups are not accounted for (they can be
-        created by insertion of new data 'in the middle' of existing data).
-        If not set, default to ``None``.
-
-          - ``None`` value induces no coalescing of row groups. If there is no
-            drop of duplicates, new data is systematically appended.
-          - A value of ``0`` or ``1`` means that new data should systematically
-            be merged to the last existing one to 'complete' it (if it is not
-            'complete' already).
-    metadata : Dict[str, str], optional
-        Key-value metadata to write, or update in dataset. Please see
-        fastparquet for updating logic in case of `None` value being used.
-    md_key: Hashable, optional
-        Key to retrieve data in ``OUPS_METADATA`` dict, and write it as
-        specific oups metadata in parquet file. If not provided, all data
-        in ``OUPS_METADATA`` dict are retrieved to be written.
-
-    Notes
-    -----
-    - When writing a dataframe with this function,
-
-      - index of dataframe is not written to disk.
-      - parquet file scheme is 'hive' (one row group per parquet file).
-
-    - Coalescing incomplete row groups is triggered depending 2 conditions,
-      either actual number of incomplete row groups is larger than ``max_nirgs``
-      or number of rows for all incomplete row groups (at the end of the
-      dataset) is enough to make a new complete row group (reaches
-      ``max_row_group_size``). This latter assessment is however only triggered
-      if ``max_nirgs`` is set. Otherwise, new data is simply appended, without
-      prior check.
-    - When ``duplicates_on`` is set, duplicate search is made row group to be
-      written per row group to be written. A `row group to be written` is made
-      from the merge between new data, and existing recorded row groups which
-      overlap. For this reason ``ordered_on`` parameter is compulsory when
-      using ``duplicates_on``, so as to be able to position new data with
-      respect to existing row groups and also to cluster this data (new and
-      overlapping recorded) into row group which have distinct values in
-      ``ordered_on`` column. If 2 rows are duplicates according values in
-      indicated columns but are not in the same row group, first duplicates
-      will not be dropped.
-    - As per logic of previous comment, duplicates need to be gathered by
-      row group to be identified, they need consequently to share the same
-      `index`, defined by the value in ``ordered_on``. Extending this logic,
-      ``ordered_on`` is added to ``duplicates_on`` if not already part of it.
-    - For simple data appending, i.e. without need to check where to insert
-      data and without need to drop duplicates, it is advised to keep
-      ``ordered_on`` and ``duplicates_on`` parameters set to ``None`` as these
-      parameters will trigger unnecessary evaluations.
-
-    """
-    if ordered_on is not None:
-        if isinstance(ordered_on, tuple):
-            raise TypeError(f"tuple for {ordered_on} not yet supported.")
-        # Check 'ordered_on' column is within input dataframe.
-        if isinstance(data, pDataFrame):
-            # pandas case
-            all_cols = data.columns
-        else:
-            # vaex case
-            all_cols = data.get_column_names()
-        if ordered_on not in all_cols:
-            raise ValueError(f"column '{ordered_on}' does not exist in input data.")
-    if os_path.isdir(dirpath) and any(file.endswith(".parquet") for file in os_listdir(dirpath)):
-        # Case updating an existing dataset.
-        # Identify overlaps in row groups between new data and recorded data.
-        # Recorded row group start and end indexes.
-        rrg_start_idx, rrg_end_idx = None, None
-        # New data lies before some recorded row groups, without overlap.
-        is_inserted = False
-        pf = ParquetFile(dirpath)
-        n_rrgs = len(pf.row_groups)
-        if duplicates_on is not None:
-            if not ordered_on:
-                raise ValueError(
-                    "duplicates are looked for over the overlap between new data and existing data. "
-                    "This overlap being identified thanks to 'ordered_on', "
-                    "it is compulsory to set 'ordered_on' while setting 'duplicates_on'.",
-                )
-            # Enforce 'ordered_on' in 'duplicates_on', as per logic of
-            # duplicate identification restricted to the data overlap between new
-            # data and existing data. This overlap being identified thanks to
-            # 'ordered_on', it implies that duplicate rows can be identified being
-            # so at the condition they share the same value in 'ordered_on' (among
-            # other columns).
-            elif isinstance(duplicates_on, list):
-                if duplicates_on and ordered_on not in duplicates_on:
-                    # Case 'not an empty list', and 'ordered_on' not in.
-                    duplicates_on = [*duplicates_on, ordered_on]
-            elif duplicates_on != ordered_on:
-                # Case 'duplicates_on' is a single column name, but not
-                # 'ordered_on'.
-                duplicates_on = [duplicates_on, ordered_on]
-        if ordered_on is not None:
-            # Get 'rrg_start_idx' & 'rrg_end_idx'.
-            if isinstance(data, pDataFrame):
-                # Case 'pandas'.
-                start = data[ordered_on].iloc[0]
-                end = data[ordered_on].iloc[-1]
-            else:
-                # Case 'vaex'.
-                start = data[ordered_on][:0].to_numpy()[0]
-                end = data[ordered_on][-1:].to_numpy()[0]
-            rrgs_idx = filter_row_groups(
-                pf,
-                [[(ordered_on, ">=", start), (ordered_on, "<=", end)]],
-                as_idx=True,
-            )
-            if rrgs_idx:
-                if len(rrgs_idx) == 1:
-                    rrg_start_idx = rrgs_idx[0]
-                else:
-                    rrg_start_idx = rrgs_idx[0]
-                    # For slicing, 'rrg_end_idx' is increased by 1.
-                    rrg_end_idx = rrgs_idx[-1] + 1
-                    if rrg_end_idx == n_rrgs:
-                        rrg_end_idx = None
-            else:
-                is_inserted = bool(
-                    filter_row_groups(pf, [[(ordered_on, ">", end)]], as_idx=True),
-                )
-        if max_nirgs is not None:
-            # Number of incomplete row groups at end of recorded data.
-            # Initialize number of rows with number to be written.
-            total_rows_in_irgs = len(data)
-            rrg_start_idx_tmp = n_rrgs - 1
-            if max_row_group_size is None:
-                max_row_group_size = MAX_ROW_GROUP_SIZE
-            min_row_group_size = int(max_row_group_size * 0.9)
-            while pf[rrg_start_idx_tmp].count() <= min_row_group_size and rrg_start_idx_tmp >= 0:
-                total_rows_in_irgs += pf[rrg_start_idx_tmp].count()
-                rrg_start_idx_tmp -= 1
-            rrg_start_idx_tmp += 1
-            # Confirm or not coalescing of incomplete row groups.
-            n_irgs = n_rrgs - rrg_start_idx_tmp
-            if total_rows_in_irgs >= max_row_group_size or n_irgs >= max_nirgs:
-                if rrg_start_idx is not None and (
-                    not rrg_end_idx or (rrg_end_idx and rrg_start_idx_tmp < rrg_end_idx)
-                ):
-                    # 1st case checked: case 'ordered_on' is used with potential
-                    # insertion of new data in existing one, in row groups not at
-                    # the tail, in which case coalescing of end data would not be
-                    # performed.
-                    rrg_start_idx = min(rrg_start_idx_tmp, rrg_start_idx)
-                elif n_irgs and not rrg_end_idx and not is_inserted:
-                    # 2nd case checked: case 'ordered_on' is not used. New data is
-                    # necessarily appended in this case.
-                    rrg_start_idx = rrg_start_idx_tmp
-        if rrg_start_idx is None:
-            # Case 'appending' (no overlap with recorded data identified).
-            # 'coalesce' has possibly been requested but not needed, hence no row
-            # groups removal in existing ones.
-            iter_data = iter_dataframe(data, max_row_group_size)
-            pf.write_row_groups(
-                data=iter_data,
-                row_group_offsets=None,
-                sort_pnames=False,
-                compression=compression,
-                write_fmd=False,
-            )
-        else:
-            # Case 'updating' (with existing row groups removal).
-            # Read row groups that have impacted data as a vaex dataframe.
-            overlapping_rgs = pf[rrg_start_idx:rrg_end_idx].row_groups
-            files = [pf.row_group_filename(rg) for rg in overlapping_rgs]
-            recorded = open_many(files)
-            if isinstance(data, pDataFrame):
-                # Convert to vaex.
-                data = from_pandas(data)
-            # For concatenation of numpy 'timedelta64' to arrow 'time64', check
-            # https://github.com/vaexio/vaex/issues/2024
-            data = recorded.concat(data)
-            if ordered_on:
-                data = data.sort(by=ordered_on)
-            iter_data = iter_dataframe(
-                data,
-                max_row_group_size=max_row_group_size,
-                sharp_on=ordered_on,
-                duplicates_on=duplicates_on,
-            )
-            # Write.
-            pf.write_row_groups(
-                data=iter_data,
-                row_group_offsets=None,
-                sort_pnames=False,
-                compression=compression,
-                write_fmd=False,
-            )
-            # Remove row groups of data that is overlapping.
-            pf.remove_row_groups(overlapping_rgs, write_fmd=False)
-        if rrg_end_idx is not None or is_inserted:
-            # New data has been inserted in the middle of existing row groups.
-            # Sorting row groups based on 'min' and 'max' in 'ordered_on' (a row
-            # group may start with the value the previous one ends with).
-            ordered_on_idx = pf.columns.index(ordered_on)
-            pf.fmd.row_groups = sorted(
-                pf.fmd.row_groups,
-                key=lambda rg: tuple(
-                    statistics(rg.columns[ordered_on_idx])[stat] for stat in ("min", "max")
-                ),
-            )
-        if rrg_start_idx is not None or is_inserted:
-            # Rename partition files, and write fmd.
-            pf._sort_part_names(write_fmd=False)
-    else:
-        # Case initiating a new dataset.
-        iter_data = iter_dataframe(data, max_row_group_size)
-        chunk = next(iter_data)
-        if cmidx_expand:
-            chunk.columns = to_midx(chunk.columns, cmidx_levels)
-        # In case multi-index is used, check that it complies with fastparquet
-        # limitations.
-        if isinstance(chunk.columns, MultiIndex):
-            check_cmidx(chunk.columns)
-        fp_write(
-            dirpath,
-            chunk,
-            row_group_offsets=max_row_group_size,
-            compression=compression,
-            file_scheme="hive",
-            write_index=False,
-            append=False,
-        )
-        # Re-open to write remaining chunks.
-        pf = ParquetFile(dirpath)
-        # Appending remaining chunks.
-        pf.write_row_groups(
-            data=iter_data,
-            row_group_offsets=None,
-            sort_pnames=False,
-            compression=compression,
-            write_fmd=False,
-        )
-    # Manage and write metadata.
-    write_metadata(pf=pf, metadata=metadata, md_key=md_key)
+#!/usr/bin/env python3
+"""
+Created on Wed Dec  6 22:30:00 2021.
+
+@author: yoh
+
+"""
+from ast import literal_eval
+from os import listdir as os_listdir
+from os import path as os_path
+from pickle import dumps
+from pickle import loads
+from typing import Dict, Hashable, List, Tuple, Union
+
+from fastparquet import ParquetFile
+from fastparquet import write as fp_write
+from fastparquet.api import filter_row_groups
+from fastparquet.api import statistics
+from fastparquet.util import update_custom_metadata
+from numpy import searchsorted as np_searchsorted
+from numpy import unique as np_unique
+from pandas import DataFrame as pDataFrame
+from pandas import Index
+from pandas import MultiIndex
+from vaex import from_pandas
+from vaex import open_many
+from vaex.dataframe import DataFrame as vDataFrame
+
+
+COMPRESSION = "SNAPPY"
+MAX_ROW_GROUP_SIZE = 6_345_000
+KEY_MAX_ROW_GROUP_SIZE = "max_row_group_size"
+KEY_DUPLICATES_ON = "duplicates_on"
+# Notes to any dev.
+# Store any oups-specific metadata in this dict, such as oups-based application
+# metadata.
+# When appending new data, use `OUPS_METADATA.update()`.
+# `OUPS_METADATA` can be used as a buffer, to keep in memory the metadata to
+# be updated, till a write is triggered.
+# Metadata itself should be within a nested dict, referred to by a `md_key`.
+# By use of a `md_key`, management in parallel of metadata for several keys is
+# possible (i.e. several dataset in difference `ParquetFile`).
+OUPS_METADATA = {}
+# In a fastparquet `ParquetFile`, oups-specific metadata is stored as value for
+# key `OUPS_METADATA_KEY`.
+OUPS_METADATA_KEY = "oups"
+
+
+def iter_dataframe(
+    data: Union[pDataFrame, vDataFrame],
+    max_row_group_size: int = None,
+    sharp_on: str = None,
+    duplicates_on: Union[str, List[str]] = None,
+):
+    """
+    Yield dataframe chunks.
+
+    Parameters
+    ----------
+    data : Union[pDataFrame, vDataFrame]
+        Data to split in row groups.
+    max_row_group_size : int, optional
+        Max size of row groups. It is a max as duplicates are dropped by row
+        group to be written, hereby reducing the row group size (if
+        ``duplicates_on`` parameter is set).
+        If not set, default to ``6_345_000``.
+    sharp_on : str, optional
+        Name of column where to check that ends of bins (which split the data
+        to be written) do not fall in the middle of duplicate values.
+        This parameter is required when ``duplicates_on`` is used.
+        This option requires a vaex dataframe.
+        If not set, default to ``None``.
+    duplicates_on : Union[str, List[str]], optional
+        If set, drop duplicates based on list of column names, keeping last.
+        Only duplicates within the same row group to be written are identified.
+        This option requires a vaex dataframe.
+        If not set, default to ``None``.
+        If an empty list ``[]``, all columns are used to identify duplicates.
+
+    Yields
+    ------
+    pDataFrame
+        Chunk of data.
+
+    Notes
+    -----
+    - Because duplicates are identified within a same row group, it is
+      required to set ``sharp_on`` when using ``duplicates_on``, so that
+      duplicates all fall in a same row group. This implies that duplicates
+      have to share the same value in ``sharp_on`` column.
+
+    """
+    # TODO: implement 'group_as' (use of 'ordered_on' column) to replicate
+    #  row group 'boundaries' between 2 different data sets.
+    if max_row_group_size is None:
+        max_row_group_size = MAX_ROW_GROUP_SIZE
+    if isinstance(data, vDataFrame):
+        # Drop any possible lazy indexing, to make the length of data equals
+        # its filtered length.
+        data = data.extract()
+    elif sharp_on or isinstance(duplicates_on, list):
+        raise TypeError("vaex dataframe required when using 'sharp_on' and/or 'duplicates_on'.")
+    # TODO: if dropping duplicates over the full dataset with vaex, then remove
+    # this exception and subsequent conditional cases. It is not necessary any
+    # longer to relate 'sharp_on' and 'duplicates_on'.
+    if duplicates_on is not None:
+        if not sharp_on:
+            raise ValueError(
+                "duplicates are looked for row group per group. For this reason, "
+                "it is compulsory to set 'sharp_on' while setting 'duplicates_on'.",
+            )
+        elif isinstance(duplicates_on, list):
+            if duplicates_on and sharp_on not in duplicates_on:
+                # Case 'not an empty list', and 'ordered_on' not in.
+                duplicates_on = [*duplicates_on, sharp_on]
+        elif duplicates_on != sharp_on:
+            # Case 'duplicates_on' is a single column name, but not
+            # 'sharp_on'.
+            duplicates_on = [duplicates_on, sharp_on]
+    n_rows = len(data)
+    if n_rows:
+        # Define bins to split into row groups.
+        # Acknowledging this piece of code to be an extract from fastparquet.
+        n_parts = (n_rows - 1) // max_row_group_size + 1
+        row_group_size = min((n_rows - 1) // n_parts + 1, n_rows)
+        starts = list(range(0, n_rows, row_group_size))
+    else:
+        # If n_rows=0
+        starts = [0]
+    if sharp_on:
+        # Adjust bins so that they do not end in the middle of duplicate values
+        # in `sharp_on` column.
+        # TODO: shorten this piece of code the day vaex accepts lists of
+        # integers. Line of code currently taken from
+        # vaex-core.vaex.dataframe.__getitem__ (L5230)
+        val_at_start = [
+            data.evaluate(sharp_on, idx, idx + 1, array_type="numpy")[0] for idx in starts
+        ]
+        # TODO: vaex searchsorted kind of broken. Re-try when solved?
+        # https://github.com/vaexio/vaex/issues/1674
+        # Doing with numpy.
+        starts = np_unique(np_searchsorted(data[sharp_on].to_numpy(), val_at_start)).tolist()
+    ends = starts[1:] + [None]
+    if isinstance(data, vDataFrame):
+        if duplicates_on is not None:
+            if duplicates_on == []:
+                columns = data.get_column_names()
+                duplicates_on = columns
+            for start, end in zip(starts, ends):
+                # TODO: possible 'drop_duplicates' directly in vaex as per:
+                # https://github.com/vaexio/vaex/pull/1623
+                # check if answer from
+                # https://github.com/vaexio/vaex/issues/1378
+                # If dropping duplicates with vaex, drop before the chunking.
+                # This removes then the constraints to have 'sharp_on' set and
+                # and in 'duplicates_on'. Duplicates are then dropped over the
+                # full dataset to be written.
+                yield data[start:end].to_pandas_df().drop_duplicates(duplicates_on, keep="last")
+        else:
+            for start, end in zip(starts, ends):
+                yield data[start:end].to_pandas_df()
+    else:
+        for start, end in zip(starts, ends):
+            yield data.iloc[start:end]
+
+
+def to_midx(idx: Index, levels: List[str] = None) -> MultiIndex:
+    """
+    Expand a pandas index into a multi-index.
+
+    Parameters
+    ----------
+    idx : Index
+        Pandas index, with values being string representations of tuples, for
+        instance, for one column, ``"('lev1','lev2')"``.
+    levels : List[str], optional
+        Names of levels to be used when creating the multi-index.
+        If not provided, a generic naming is used, ``[l0, l1, l2, ...]``.
+        If provided list is not long enough for the number of levels, it is
+        completed using a generic naming, ``[..., l4, l5]``.
+
+    Returns
+    -------
+    MultiIndex
+        Pandas multi-index.
+
+    Notes
+    -----
+    The accepted string representations of tuples is one typically obtained
+    after a roundtrip from pandas dataframe with a column multi-index to vaex
+    dataframe and back to pandas. The resulting column index is then a simple
+    one, with string representations for tuples.
+
+    If some column names have string representations of smaller tuples
+    (resulting in fewer index levels), these column names are appended with
+    empty strings '' as required to be of equal levels number than the longest
+    column names.
+
+    """
+    idx_temp = []
+    max_levels = 0
+    for val in idx:
+        try:
+            tup = literal_eval(val)
+        except (ValueError, SyntaxError):
+            tup = None
+        if not isinstance(tup, tuple):
+            # Keep value as string, enclosed in a tuple.
+            tup = (val,)
+        # Get max number of levels.
+        max_levels = max(len(tup), max_levels)
+        idx_temp.append(tup)
+    # Generate names of levels if required.
+    diff = 0
+    if levels is None:
+        levels = []
+        len_lev = 0
+        diff = max_levels
+    elif (len_lev := len(levels)) < max_levels:
+        diff = max_levels - len_lev
+    if diff > 0:
+        levels = [*levels, *(f"l{i}" for i in range(len_lev, max_levels))]
+    # Equalize length of tuples.
+    tuples = [(*t, *[""] * n) if (n := (max_levels - len(t))) else t for t in idx_temp]
+    return MultiIndex.from_tuples(tuples, names=levels)
+
+
+def check_cmidx(cmidx: MultiIndex):
+    """
+    Check if column multi-index complies with fastparquet requirements.
+
+    Library fastparquet requires names for each level in a Multiindex.
+    Also, column names have to be tuple of string.
+
+    Parameters
+    ----------
+    cmidx : MultiIndex
+        MultiIndex to check.
+
+    """
+    # Check level names.
+    if None in cmidx.names:
+        raise ValueError(
+            "not possible to have level name set to None.",
+        )  # If an item of the column name is not a string, turn it into a string.
+    # Check column names.
+    for level in cmidx.levels:
+        for name in level:
+            if not isinstance(name, str):
+                raise TypeError(f"name {name} has to be of type 'string', not '{type(name)}'.")
+
+
+def write_metadata(
+    pf: ParquetFile,
+    metadata: Dict[str, str] = None,
+    md_key: Hashable = None,
+):
+    """
+    Write metadata to disk.
+
+    Update oups-specific metadata and merge to user-defined metadata.
+    "oups-specific" metadata is retrieved from OUPS_METADATA dict.
+
+    Parameters
+    ----------
+    pf : ParquetFile
+        ParquetFile which metadata are to be updated.
+    metadata : Dict[str, str], optional
+        User-defined key-value metadata to write, or update in dataset. Please
+        see fastparquet for updating logic in case of `None` value being used.
+    md_key: Hashable, optional
+        Key to retrieve data in ``OUPS_METADATA`` dict, and write it as
+        specific oups metadata in parquet file. If not provided, all data
+        in ``OUPS_METADATA`` dict are retrieved to be written.
+        This parameter is not compulsory. It is needed for instance in case
+        data is written at same time for several keys. Then the right metadata
+        for each key can be found thanks to this label.
+
+    Notes
+    -----
+    - Specific oups metadata are available in global variable ``OUPS_METADATA``.
+    - Once merged to ``new_metadata``, ``OUPS_METADATA`` is reset.
+    - Update strategy of oups specific metadata depends if key found in
+      ``OUPS_METADATA``metadata` is also found in already existing metadata,
+      as well as its value.
+
+      - If not found in existing, it is added.
+      - If found in existing, it is updated.
+      - If its value is `None`, it is not added, and if found in existing, it
+        is removed from existing.
+
+    """
+    if OUPS_METADATA and md_key and md_key in OUPS_METADATA:
+        # If 'md_key' is 'None', then no metadata from ``OUPS_METADATA`` is
+        # retrieved.
+        new_oups_spec_md = OUPS_METADATA[md_key]
+        if OUPS_METADATA_KEY in (existing_metadata := pf.key_value_metadata):
+            # Case 'append' to existing metadata.
+            # oups-specific metadata is expected to be a dict itself.
+            # To be noticed, 'md_key' is not written itself in metadata to
+            # disk.
+            existing_oups_spec_md = loads(existing_metadata[OUPS_METADATA_KEY])
+            for key, value in new_oups_spec_md.items():
+                if key in existing_oups_spec_md:
+                    if value is None:
+                        # Case 'remove'.
+                        del existing_oups_spec_md[key]
+                    else:
+                        # Case 'update'.
+                        existing_oups_spec_md[key] = value
+                elif value is not None:
+                    # Case 'add'.
+                    existing_oups_spec_md[key] = value
+        else:
+            existing_oups_spec_md = {
+                key: value for key, value in new_oups_spec_md.items() if value is not None
+            }
+        del OUPS_METADATA[md_key]
+
+        if metadata:
+            metadata = {**metadata, OUPS_METADATA_KEY: dumps(existing_oups_spec_md)}
+        else:
+            metadata = {OUPS_METADATA_KEY: dumps(existing_oups_spec_md)}
+
+    if metadata:
+        update_custom_metadata(pf, metadata)
+    pf._write_common_metadata()
+
+
+def write(
+    dirpath: str,
+    data: Union[pDataFrame, vDataFrame],
+    max_row_group_size: int = None,
+    compression: str = COMPRESSION,
+    cmidx_expand: bool = False,
+    cmidx_levels: List[str] = None,
+    ordered_on: Union[str, Tuple[str]] = None,
+    duplicates_on: Union[str, List[str], List[Tuple[str]]] = None,
+    max_nirgs: int = None,
+    metadata: Dict[str, str] = None,
+    md_key: Hashable = None,
+):
+    """
+    Write data to disk at location specified by path.
+
+    Parameters
+    ----------
+    dirpath : str
+        Directory where writing pandas dataframe.
+    data : Union[pDataFrame, vDataFrame]
+        Data to write.
+    max_row_group_size : int, optional
+        Max row group size. If not set, default to ``6_345_000``, which for a
+        dataframe with 6 columns of ``float64`` or ``int64`` results in a
+        memory footprint (RAM) of about 290MB.
+    compression : str, default SNAPPY
+        Algorithm to use for compressing data. This parameter is fastparquet
+        specific. Please see fastparquet documentation for more information.
+    cmidx_expand : bool, default False
+        If `True`, expand column index into a column multi-index.
+        This parameter is only used at creation of the dataset. Once column
+        names are set, they cannot be modified by use of this parameter.
+    cmidx_levels : List[str], optional
+        Names of levels to be used when expanding column names into a
+        multi-index. If not provided, levels are given names 'l1', 'l2', ...
+    ordered_on : Union[str, Tuple[str]] optional
+        Name of the column with respect to which dataset is in ascending order.
+        If column multi-index, name of the column is a tuple.
+        This parameter is optional, and required so that data overlaps between
+        new data and existing recorded row groups can be identified.
+        This parameter is compulsory when ``duplicates_on`` is used.
+        If not set, default to ``None``.
+        It has two effects:
+
+          - it allows knowing 'where' to insert new data into existing data,
+            i.e. completing or correcting past records (but it does not allow
+            to remove prior data).
+          - it ensures that two consecutive row groups do not have duplicate
+            values in column defined by ``ordered_on`` (only in row groups to
+            be written). This implies that all possible duplicates in
+            ``ordered_on`` column will lie in the same row group.
+
+    duplicates_on : Union[str, List[str], List[Tuple[str]]], optional
+        Column names according which 'row duplicates' can be identified (i.e.
+        rows sharing same values on these specific columns) so as to drop
+        them. Duplicates are only identified in new data, and existing
+        recorded row groups that overlap with new data.
+        If duplicates are dropped, only last is kept.
+        To identify row duplicates using all columns, empty list ``[]`` can be
+        used instead of all columns names.
+        If not set, default to ``None``, meaning no row is dropped.
+    max_nirgs : int, optional
+        Max expected number of 'incomplete' row groups. A 'complete' row group
+        is one which size is 'close to' ``max_row_group_size`` (>=90%).
+        To evaluate number of 'incomplete' row groups, only those at the end of
+        an existing dataset are accounted for. 'Incomplete' row groups in the
+        middle of 'complete' row groups are not accounted for (they can be
+        created by insertion of new data 'in the middle' of existing data).
+        If not set, default to ``None``.
+
+          - ``None`` value induces no coalescing of row groups. If there is no
+            drop of duplicates, new data is systematically appended.
+          - A value of ``0`` or ``1`` means that new data should systematically
+            be merged to the last existing one to 'complete' it (if it is not
+            'complete' already).
+    metadata : Dict[str, str], optional
+        Key-value metadata to write, or update in dataset. Please see
+        fastparquet for updating logic in case of `None` value being used.
+    md_key: Hashable, optional
+        Key to retrieve data in ``OUPS_METADATA`` dict, and write it as
+        specific oups metadata in parquet file. If not provided, all data
+        in ``OUPS_METADATA`` dict are retrieved to be written.
+
+    Notes
+    -----
+    - When writing a dataframe with this function,
+
+      - index of dataframe is not written to disk.
+      - parquet file scheme is 'hive' (one row group per parquet file).
+
+    - Coalescing incomplete row groups is triggered depending 2 conditions,
+      either actual number of incomplete row groups is larger than ``max_nirgs``
+      or number of rows for all incomplete row groups (at the end of the
+      dataset) is enough to make a new complete row group (reaches
+      ``max_row_group_size``). This latter assessment is however only triggered
+      if ``max_nirgs`` is set. Otherwise, new data is simply appended, without
+      prior check.
+    - When ``duplicates_on`` is set, duplicate search is made row group to be
+      written per row group to be written. A `row group to be written` is made
+      from the merge between new data, and existing recorded row groups which
+      overlap. For this reason ``ordered_on`` parameter is compulsory when
+      using ``duplicates_on``, so as to be able to position new data with
+      respect to existing row groups and also to cluster this data (new and
+      overlapping recorded) into row group which have distinct values in
+      ``ordered_on`` column. If 2 rows are duplicates according values in
+      indicated columns but are not in the same row group, first duplicates
+      will not be dropped.
+    - As per logic of previous comment, duplicates need to be gathered by
+      row group to be identified, they need consequently to share the same
+      `index`, defined by the value in ``ordered_on``. Extending this logic,
+      ``ordered_on`` is added to ``duplicates_on`` if not already part of it.
+    - For simple data appending, i.e. without need to check where to insert
+      data and without need to drop duplicates, it is advised to keep
+      ``ordered_on`` and ``duplicates_on`` parameters set to ``None`` as these
+      parameters will trigger unnecessary evaluations.
+
+    """
+    if ordered_on is not None:
+        if isinstance(ordered_on, tuple):
+            raise TypeError(f"tuple for {ordered_on} not yet supported.")
+        # Check 'ordered_on' column is within input dataframe.
+        if isinstance(data, pDataFrame):
+            # pandas case
+            all_cols = data.columns
+        else:
+            # vaex case
+            all_cols = data.get_column_names()
+        if ordered_on not in all_cols:
+            raise ValueError(f"column '{ordered_on}' does not exist in input data.")
+    if os_path.isdir(dirpath) and any(file.endswith(".parquet") for file in os_listdir(dirpath)):
+        # Case updating an existing dataset.
+        # Identify overlaps in row groups between new data and recorded data.
+        # Recorded row group start and end indexes.
+        rrg_start_idx, rrg_end_idx = None, None
+        # New data lies before some recorded row groups, without overlap.
+        is_inserted = False
+        pf = ParquetFile(dirpath)
+        n_rrgs = len(pf.row_groups)
+        if duplicates_on is not None:
+            if not ordered_on:
+                raise ValueError(
+                    "duplicates are looked for over the overlap between new data and existing data. "
+                    "This overlap being identified thanks to 'ordered_on', "
+                    "it is compulsory to set 'ordered_on' while setting 'duplicates_on'.",
+                )
+            # Enforce 'ordered_on' in 'duplicates_on', as per logic of
+            # duplicate identification restricted to the data overlap between new
+            # data and existing data. This overlap being identified thanks to
+            # 'ordered_on', it implies that duplicate rows can be identified being
+            # so at the condition they share the same value in 'ordered_on' (among
+            # other columns).
+            elif isinstance(duplicates_on, list):
+                if duplicates_on and ordered_on not in duplicates_on:
+                    # Case 'not an empty list', and 'ordered_on' not in.
+                    duplicates_on = [*duplicates_on, ordered_on]
+            elif duplicates_on != ordered_on:
+                # Case 'duplicates_on' is a single column name, but not
+                # 'ordered_on'.
+                duplicates_on = [duplicates_on, ordered_on]
+        if ordered_on is not None:
+            # Get 'rrg_start_idx' & 'rrg_end_idx'.
+            if isinstance(data, pDataFrame):
+                # Case 'pandas'.
+                start = data[ordered_on].iloc[0]
+                end = data[ordered_on].iloc[-1]
+            else:
+                # Case 'vaex'.
+                start = data[ordered_on][:0].to_numpy()[0]
+                end = data[ordered_on][-1:].to_numpy()[0]
+            rrgs_idx = filter_row_groups(
+                pf,
+                [[(ordered_on, ">=", start), (ordered_on, "<=", end)]],
+                as_idx=True,
+            )
+            if rrgs_idx:
+                if len(rrgs_idx) == 1:
+                    rrg_start_idx = rrgs_idx[0]
+                else:
+                    rrg_start_idx = rrgs_idx[0]
+                    # For slicing, 'rrg_end_idx' is increased by 1.
+                    rrg_end_idx = rrgs_idx[-1] + 1
+                    if rrg_end_idx == n_rrgs:
+                        rrg_end_idx = None
+            else:
+                is_inserted = bool(
+                    filter_row_groups(pf, [[(ordered_on, ">", end)]], as_idx=True),
+                )
+        if max_nirgs is not None:
+            # Number of incomplete row groups at end of recorded data.
+            # Initialize number of rows with number to be written.
+            total_rows_in_irgs = len(data)
+            rrg_start_idx_tmp = n_rrgs - 1
+            if max_row_group_size is None:
+                max_row_group_size = MAX_ROW_GROUP_SIZE
+            min_row_group_size = int(max_row_group_size * 0.9)
+            while pf[rrg_start_idx_tmp].count() <= min_row_group_size and rrg_start_idx_tmp >= 0:
+                total_rows_in_irgs += pf[rrg_start_idx_tmp].count()
+                rrg_start_idx_tmp -= 1
+            rrg_start_idx_tmp += 1
+            # Confirm or not coalescing of incomplete row groups.
+            n_irgs = n_rrgs - rrg_start_idx_tmp
+            if total_rows_in_irgs >= max_row_group_size or n_irgs >= max_nirgs:
+                if rrg_start_idx is not None and (
+                    not rrg_end_idx or (rrg_end_idx and rrg_start_idx_tmp < rrg_end_idx)
+                ):
+                    # 1st case checked: case 'ordered_on' is used with potential
+                    # insertion of new data in existing one, in row groups not at
+                    # the tail, in which case coalescing of end data would not be
+                    # performed.
+                    rrg_start_idx = min(rrg_start_idx_tmp, rrg_start_idx)
+                elif n_irgs and not rrg_end_idx and not is_inserted:
+                    # 2nd case checked: case 'ordered_on' is not used. New data is
+                    # necessarily appended in this case.
+                    rrg_start_idx = rrg_start_idx_tmp
+        if rrg_start_idx is None:
+            # Case 'appending' (no overlap with recorded data identified).
+            # 'coalesce' has possibly been requested but not needed, hence no row
+            # groups removal in existing ones.
+            iter_data = iter_dataframe(data, max_row_group_size)
+            pf.write_row_groups(
+                data=iter_data,
+                row_group_offsets=None,
+                sort_pnames=False,
+                compression=compression,
+                write_fmd=False,
+            )
+        else:
+            # Case 'updating' (with existing row groups removal).
+            # Read row groups that have impacted data as a vaex dataframe.
+            overlapping_rgs = pf[rrg_start_idx:rrg_end_idx].row_groups
+            files = [pf.row_group_filename(rg) for rg in overlapping_rgs]
+            recorded = open_many(files)
+            if isinstance(data, pDataFrame):
+                # Convert to vaex.
+                data = from_pandas(data)
+            # For concatenation of numpy 'timedelta64' to arrow 'time64', check
+            # https://github.com/vaexio/vaex/issues/2024
+            data = recorded.concat(data)
+            if ordered_on:
+                data = data.sort(by=ordered_on)
+            iter_data = iter_dataframe(
+                data,
+                max_row_group_size=max_row_group_size,
+                sharp_on=ordered_on,
+                duplicates_on=duplicates_on,
+            )
+            # Write.
+            pf.write_row_groups(
+                data=iter_data,
+                row_group_offsets=None,
+                sort_pnames=False,
+                compression=compression,
+                write_fmd=False,
+            )
+            # Remove row groups of data that is overlapping.
+            pf.remove_row_groups(overlapping_rgs, write_fmd=False)
+        if rrg_end_idx is not None or is_inserted:
+            # New data has been inserted in the middle of existing row groups.
+            # Sorting row groups based on 'min' and 'max' in 'ordered_on' (a row
+            # group may start with the value the previous one ends with).
+            ordered_on_idx = pf.columns.index(ordered_on)
+            pf.fmd.row_groups = sorted(
+                pf.fmd.row_groups,
+                key=lambda rg: tuple(
+                    statistics(rg.columns[ordered_on_idx])[stat] for stat in ("min", "max")
+                ),
+            )
+        if rrg_start_idx is not None or is_inserted:
+            # Rename partition files, and write fmd.
+            pf._sort_part_names(write_fmd=False)
+    else:
+        # Case initiating a new dataset.
+        iter_data = iter_dataframe(data, max_row_group_size)
+        chunk = next(iter_data)
+        if cmidx_expand:
+            chunk.columns = to_midx(chunk.columns, cmidx_levels)
+        # In case multi-index is used, check that it complies with fastparquet
+        # limitations.
+        if isinstance(chunk.columns, MultiIndex):
+            check_cmidx(chunk.columns)
+        fp_write(
+            dirpath,
+            chunk,
+            row_group_offsets=max_row_group_size,
+            compression=compression,
+            file_scheme="hive",
+            write_index=False,
+            append=False,
+        )
+        # Re-open to write remaining chunks.
+        pf = ParquetFile(dirpath)
+        # Appending remaining chunks.
+        pf.write_row_groups(
+            data=iter_data,
+            row_group_offsets=None,
+            sort_pnames=False,
+            compression=compression,
+            write_fmd=False,
+        )
+    # Manage and write metadata.
+    write_metadata(pf=pf, metadata=metadata, md_key=md_key)
-- 
2.43.0


From 0f44a31aee4f4c99030d29551ed407fffdd34aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:13 +0000
Subject: [PATCH 18/31] fix: write() with an empty dataframe on an existing
 dataset

---
 oups/store/writer.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index 762014d..b1e33fc 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -487,7 +487,7 @@ def write(
                 # Case 'duplicates_on' is a single column name, but not
                 # 'ordered_on'.
                 duplicates_on = [duplicates_on, ordered_on]
-        if ordered_on is not None:
+        if ordered_on is not None and len(data):
             # Get 'rrg_start_idx' & 'rrg_end_idx'.
             if isinstance(data, pDataFrame):
                 # Case 'pandas'.
@@ -546,14 +546,15 @@ def write(
             # Case 'appending' (no overlap with recorded data identified).
             # 'coalesce' has possibly been requested but not needed, hence no row
             # groups removal in existing ones.
-            iter_data = iter_dataframe(data, max_row_group_size)
-            pf.write_row_groups(
-                data=iter_data,
-                row_group_offsets=None,
-                sort_pnames=False,
-                compression=compression,
-                write_fmd=False,
-            )
+            if len(data):
+                iter_data = iter_dataframe(data, max_row_group_size)
+                pf.write_row_groups(
+                    data=iter_data,
+                    row_group_offsets=None,
+                    sort_pnames=False,
+                    compression=compression,
+                    write_fmd=False,
+                )
         else:
             # Case 'updating' (with existing row groups removal).
             # Read row groups that have impacted data as a vaex dataframe.
-- 
2.43.0


From 6fba4c74eb3c4e8c07cd19dc9e0f5bdc4652b8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:13 +0000
Subject: [PATCH 19/31] fix: AggStream does not modify key configurations it is
 given

---
 oups/aggstream/aggstream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 7560311..d6e1c8c 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -172,8 +172,9 @@ def _init_keys_config(
     for key, key_conf_in in keys_config.items():
         # Parameters in 'key_conf_in' take precedence over those in
         # 'keys_default'. Additionally, with this step, 'key_conf_in' is a
-        # deep copy, and when parameters are popped, it does not affect
+        # copy, and when parameters are popped, it does not affect
         # the initial 'key_conf_in'.
+        key_conf_in = dict(key_conf_in)
         try:
             bin_by = key_conf_in.pop(KEY_BIN_BY)
         except KeyError:
-- 
2.43.0


From 77e2101c9ae850164e3a21d241e388b885891064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:13 +0000
Subject: [PATCH 20/31] fix: empty seed chunk in AggStream

---
 oups/aggstream/aggstream.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index d6e1c8c..e098fac 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -554,6 +554,9 @@ def _iter_data(
         # DataFrame its 'final' length.
         if not (seed_remainder is None or seed_remainder.empty):
             seed_chunk = pconcat([seed_remainder, seed_chunk], ignore_index=True)
+        if seed_chunk.empty:
+            # No row in this chunk. Go to the next.
+            continue
         # Step 3 / Prepare filter to trim seed head and tail if requested.
         if trim_start:
             if seed_chunk.loc[:, ordered_on].iloc[-1] < restart_index:
-- 
2.43.0


From 2b61464780c43fe4d67f8a50846c0c43d7fd3e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:13 +0000
Subject: [PATCH 21/31] fix: record seed index in metadata when it is 0

---
 oups/aggstream/aggstream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index e098fac..d404319 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -793,7 +793,7 @@ def _post_n_write_agg_chunks(
         initial_agg_res = False
         main_res = None
     main_key, snap_key = key if isinstance(key, tuple) else (key, None)
-    if last_seed_index:
+    if last_seed_index is not None:
         # If 'last_seed_index', set oups metadata.
         # It is possible there is no result yet to write for different reasons:
         # - new seed data has been streamed and needs to be taken into account,
@@ -827,7 +827,7 @@ def _post_n_write_agg_chunks(
             )
         else:
             store[main_key] = write_config, main_res
-    elif last_seed_index:
+    elif last_seed_index is not None:
         # If no result, metadata is possibly to be written, as this is the
         # flag indicating the last 'aggstream' local iteration.
         try:
-- 
2.43.0


From 4ce53efcd2e50c53336e5d5aa5d4876e49fb769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 22/31] fix: None given as filter of the id for unfiltered data

---
 oups/aggstream/aggstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index d404319..d12859a 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -1262,7 +1262,7 @@ class AggStream:
             # Check if only an "AND" part has been provided. If yes, enclose it
             # in an outer list.
             filters = {
-                filt_id: [filters_] if isinstance(filters_[0], tuple) else filters_
+                filt_id: [filters_] if filters_ and isinstance(filters_[0], tuple) else filters_
                 for filt_id, filters_ in filters.items()
             }
         # Set default values for keys' config.
-- 
2.43.0


From 99472a7449cf8fb60a16bcaccd31ad74ce9ed415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 23/31] fix: explicit refusal of a scale which ends before
 restart point

---
 oups/aggstream/segmentby.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index de27202..1734909 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -253,13 +253,15 @@ def by_scale(
             # In case at previous iteration, there has been no snapshot,
             # 'buffer' will not contain 'KEY_RESTART_KEY', but will contain
             # 'KEY_LAST_ON_VALUE'.
-            if KEY_RESTART_KEY in buffer and buffer[KEY_RESTART_KEY] != chunk_ends[0]:
+            if KEY_RESTART_KEY in buffer and (
+                chunk_ends.empty or buffer[KEY_RESTART_KEY] != chunk_ends[0]
+            ):
                 # In case of restart, if first value in 'chunk_ends' is not the
                 # the one that was used in last at last iteration, try first to
                 # trim values in 'by' that are earlier than 'restart_key'.
                 n_chunk_ends_init = len(chunk_ends)
                 chunk_ends = chunk_ends[chunk_ends >= buffer[KEY_RESTART_KEY]]
-                if buffer[KEY_RESTART_KEY] != chunk_ends[0]:
+                if chunk_ends.empty or buffer[KEY_RESTART_KEY] != chunk_ends[0]:
                     raise ValueError(
                         f"'by' needs to contain value {buffer[KEY_RESTART_KEY]} "
                         "to restart correctly.",
-- 
2.43.0


From a56f5efd1c356fba07b6bc2951dc3ad7d5ceeea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 24/31] fix: expand column names of all row groups when
 creating a dataset

With 'cmidx_expand', only the first row group had its columns renamed. Writing
failed with a KeyError as soon as data was split in several row groups, if the
name of a column was not exactly the string of its tuple.
---
 oups/store/writer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index b1e33fc..eb4db61 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -604,7 +604,10 @@ def write(
         iter_data = iter_dataframe(data, max_row_group_size)
         chunk = next(iter_data)
         if cmidx_expand:
-            chunk.columns = to_midx(chunk.columns, cmidx_levels)
+            cmidx = to_midx(chunk.columns, cmidx_levels)
+            chunk.columns = cmidx
+            # Same column names in remaining chunks.
+            iter_data = (remaining.set_axis(cmidx, axis=1) for remaining in iter_data)
         # In case multi-index is used, check that it complies with fastparquet
         # limitations.
         if isinstance(chunk.columns, MultiIndex):
-- 
2.43.0


From f0d6dd483e1c741217377286502cd03f1140ebc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:17 +0000
Subject: [PATCH 25/31] fix: successive calls with an empty scale raised
 IndexError

---
 oups/aggstream/segmentby.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oups/aggstream/segmentby.py b/oups/aggstream/segmentby.py
index 1734909..428fe76 100644
--- a/oups/aggstream/segmentby.py
+++ b/oups/aggstream/segmentby.py
@@ -268,7 +268,7 @@ def by_scale(
                     )
                 n_first_chunks_to_remove = n_chunk_ends_init - len(chunk_ends)
                 chunk_labels = chunk_labels[n_first_chunks_to_remove:]
-            if KEY_LAST_ON_VALUE in buffer:
+            if KEY_LAST_ON_VALUE in buffer and not chunk_ends.empty:
                 # In the specific case 'on' has not been traversed completely
                 # at previous iteration, the chunk for the remaining of the
                 # data has no label, and will not appear in the snapshot
-- 
2.43.0


From 49baba9c81ba4357b0e498cb53aa7b50cd1bbb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:17 +0000
Subject: [PATCH 26/31] fix: unfiltered data in filters with no key using it
 raised KeyError when aggregating

---
 oups/aggstream/aggstream.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index d12859a..8a129e7 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -1297,9 +1297,7 @@ class AggStream:
                     # If not in 'filters' but in 'keys', add it to 'filters'.
                     filters[NO_FILTER_ID] = None
                 filt_filt_ids = set(filters)
-                filt_filt_ids.discard(NO_FILTER_ID)
                 keys_filt_ids = set(keys)
-                keys_filt_ids.discard(NO_FILTER_ID)
                 if filt_filt_ids != keys_filt_ids:
                     raise ValueError(
                         "not possible to have different lists of filter ids"
-- 
2.43.0


From e2d41f241ad39fcb1d1b5f5dedb8464d454df2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 27/31] fix: a seed with no chunk given as an iterator raised
 StopIteration

---
 oups/aggstream/aggstream.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 8a129e7..f911faf 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -1374,7 +1374,11 @@ class AggStream:
 
         """
         remainder = iter(seed)
-        first = next(remainder)
+        try:
+            first = next(remainder)
+        except StopIteration:
+            # No chunk in seed.
+            return []
         # Recompose seed with 1st item materialized.
         seed = chain([first], remainder)
         seed_dtypes = first.dtypes.to_dict()
-- 
2.43.0


From 7b0e0006f856ed09332d49064c61fa9a4db09a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:35 +0000
Subject: [PATCH 28/31] fix: large integers of row groups with nulls are
 altered when these row groups are rewritten

---
 oups/store/writer.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/oups/store/writer.py b/oups/store/writer.py
index eb4db61..d23e0aa 100644
--- a/oups/store/writer.py
+++ b/oups/store/writer.py
@@ -21,7 +21,9 @@ from numpy import searchsorted as np_searchsorted
 from numpy import unique as np_unique
 from pandas import DataFrame as pDataFrame
 from pandas import Index
+from pandas import Int64Dtype
 from pandas import MultiIndex
+from pandas import UInt64Dtype
 from vaex import from_pandas
 from vaex import open_many
 from vaex.dataframe import DataFrame as vDataFrame
@@ -44,6 +46,27 @@ OUPS_METADATA = {}
 # In a fastparquet `ParquetFile`, oups-specific metadata is stored as value for
 # key `OUPS_METADATA_KEY`.
 OUPS_METADATA_KEY = "oups"
+# Types of pandas for integers with null values.
+NULLABLE_INTEGERS = {"int64": Int64Dtype(), "uint64": UInt64Dtype()}
+
+
+def to_pandas(data: vDataFrame) -> pDataFrame:
+    """
+    Convert a vaex dataframe to pandas, keeping integers which come with nulls.
+
+    In this case, vaex turns integers into floats, and the largest ones would be
+    altered.
+
+    """
+    df = data.to_pandas_df()
+    for col in df.columns:
+        if df[col].dtype.kind == "f":
+            dtype = NULLABLE_INTEGERS.get(data.data_type(col).name)
+            if dtype is not None:
+                df[col] = data.evaluate(col, array_type="arrow").to_pandas(
+                    types_mapper=lambda _, dtype=dtype: dtype,
+                )
+    return df
 
 
 def iter_dataframe(
@@ -155,10 +178,10 @@ def iter_dataframe(
                 # This removes then the constraints to have 'sharp_on' set and
                 # and in 'duplicates_on'. Duplicates are then dropped over the
                 # full dataset to be written.
-                yield data[start:end].to_pandas_df().drop_duplicates(duplicates_on, keep="last")
+                yield to_pandas(data[start:end]).drop_duplicates(duplicates_on, keep="last")
         else:
             for start, end in zip(starts, ends):
-                yield data[start:end].to_pandas_df()
+                yield to_pandas(data[start:end])
     else:
         for start, end in zip(starts, ends):
             yield data.iloc[start:end]
-- 
2.43.0


From 6004c9167ad87679a2b4410d56d0bd97c45481a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:24 +0000
Subject: [PATCH 29/31] fix: restart index recorded before snapshots are, which
 were lost if their write failed

---
 oups/aggstream/aggstream.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index f911faf..3d22420 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -817,14 +817,16 @@ def _post_n_write_agg_chunks(
     if isinstance(main_res, DataFrame):
         # Record data (with metadata possibly updated).
         if agg_res_type is AggResType.BOTH:
-            store[main_key] = (
-                write_config | {KEY_MAX_ROW_GROUP_SIZE: write_config[KEY_MAX_ROW_GROUP_SIZE][0]},
-                main_res,
-            )
+            # Snapshots first: restart index, recorded with 'main_key', is not
+            # to be recorded before all results are.
             store[snap_key] = (
                 write_config | {KEY_MAX_ROW_GROUP_SIZE: write_config[KEY_MAX_ROW_GROUP_SIZE][1]},
                 snap_res,
             )
+            store[main_key] = (
+                write_config | {KEY_MAX_ROW_GROUP_SIZE: write_config[KEY_MAX_ROW_GROUP_SIZE][0]},
+                main_res,
+            )
         else:
             store[main_key] = write_config, main_res
     elif last_seed_index is not None:
-- 
2.43.0


From ed1b0a627ba7a2137b428139a8628ae23a164e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:24 +0000
Subject: [PATCH 30/31] fix: restart state of a failed recording was recorded
 with partial results of a next run

---
 oups/aggstream/aggstream.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oups/aggstream/aggstream.py b/oups/aggstream/aggstream.py
index 3d22420..283dfcf 100644
--- a/oups/aggstream/aggstream.py
+++ b/oups/aggstream/aggstream.py
@@ -813,6 +813,10 @@ def _post_n_write_agg_chunks(
                 KEY_POST_BUFFER: post_buffer,
             },
         }
+    else:
+        # Intermediate write: metadata left pending by a previous recording
+        # which failed is not to be recorded with these results.
+        OUPS_METADATA.pop(main_key, None)
     # When there is no result, 'main_res' is None.
     if isinstance(main_res, DataFrame):
         # Record data (with metadata possibly updated).
-- 
2.43.0


From 662b0fcc8d90d62b800b0a16cd384ed5226a821f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:43 +0000
Subject: [PATCH 31/31] fix: rows of a write which failed were in the vaex view

---
 oups/store/router.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oups/store/router.py b/oups/store/router.py
index a0893bb..85fcc8f 100644
--- a/oups/store/router.py
+++ b/oups/store/router.py
@@ -6,6 +6,7 @@ Created on Wed Dec 26 22:30:00 2021.
 
 """
 from functools import cached_property
+from os import path as os_path
 from os import scandir
 
 from cloudpickle import loads
@@ -79,7 +80,10 @@ class ParquetHandle:
         """
         # To circumvent vaex lexicographic filename sorting to order row
         # groups, ordering the list of files is required.
-        files = [file.name for file in scandir(self._dirpath) if file.name[-7:] == "parquet"]
+        # Files which are not recorded are leftovers of a write which failed.
+        pf = ParquetFile(self._dirpath)
+        recorded = {os_path.basename(pf.row_group_filename(rg)) for rg in pf.row_groups}
+        files = [file.name for file in scandir(self._dirpath) if file.name in recorded]
         files.sort(key=lambda x: int(x[5:-8]))
         prefix_dirpath = f"{str(self._dirpath)}{DIR_SEP}".__add__
         return open_many(map(prefix_dirpath, files))
-- 
2.43.0

