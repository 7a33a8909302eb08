"""Public names of data types of the libraries (xarray, numpy), listed from their classes."""

DATASET = set("""
all any apply argmax argmin argsort as_numpy assign assign_attrs assign_coords astype attrs bfill broadcast_equals broadcast_like chunk chunks
chunksizes clip close coarsen combine_first compute conj conjugate convert_calendar coords copy count cumprod cumsum cumulative cumulative_integrate
curvefit data_vars diff differentiate dims drop drop_attrs drop_dims drop_duplicates drop_encoding drop_indexes drop_isel drop_sel drop_vars dropna
dtypes dump_to_store encoding equals eval expand_dims ffill fillna filter_by_attrs from_dataframe from_dict get get_index groupby groupby_bins head
identical idxmax idxmin imag indexes info integrate interp interp_calendar interp_like interpolate_na isel isin isnull items keys load load_async
load_store loc map map_blocks max mean median merge min nbytes notnull pad persist pipe plot polyfit prod quantile query rank real reduce reindex
reindex_like rename rename_dims rename_vars reorder_levels resample reset_coords reset_encoding reset_index roll rolling rolling_exp round sel
set_close set_coords set_index set_xindex shift sizes sortby squeeze stack std sum swap_dims tail thin to_array to_dask_dataframe to_dataarray
to_dataframe to_dict to_netcdf to_pandas to_stacked_array to_zarr transpose unify_chunks unstack update values var variables weighted where xindexes
""".split())

DATAARRAY = set("""
T all any argmax argmin argsort as_numpy assign_attrs assign_coords astype attrs bfill broadcast_equals broadcast_like chunk chunks chunksizes clip
close coarsen combine_first compute conj conjugate convert_calendar coords copy count cumprod cumsum cumulative cumulative_integrate curvefit data
diff differentiate dims dot drop drop_attrs drop_duplicates drop_encoding drop_indexes drop_isel drop_sel drop_vars dropna dt dtype encoding equals
expand_dims ffill fillna from_dict from_iris from_series get_axis_num get_index groupby groupby_bins head identical idxmax idxmin imag indexes
integrate interp interp_calendar interp_like interpolate_na isel isin isnull item load load_async loc map_blocks max mean median min name nbytes ndim
notnull pad persist pipe plot polyfit prod quantile query rank real reduce reindex reindex_like rename reorder_levels resample reset_coords
reset_encoding reset_index roll rolling rolling_exp round searchsorted sel set_close set_index set_xindex shape shift size sizes sortby squeeze stack
std str sum swap_dims tail thin to_dask_dataframe to_dataframe to_dataset to_dict to_index to_iris to_masked_array to_netcdf to_numpy to_pandas
to_series to_unstacked_dataset to_zarr transpose unify_chunks unstack values var variable weighted where xindexes
""".split())

NDARRAY = set("""
T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes cumprod cumsum data device diagonal
dot dtype dump dumps fill flags flat flatten getfield imag item itemsize mT max mean min nbytes ndim nonzero partition prod put ravel real repeat
reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take to_device tobytes tofile tolist trace
transpose var view
""".split())

TUPLE = set("count index".split())
