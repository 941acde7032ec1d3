"""Time series data sets in every container."""
import os
import torch
from time_series_data.time_dataset import (TimeSeriesDataset,
                                           TimeSeriesDatasetInMemory)


def contain(ctx, samples, container):
    """Data set and the indices of the samples it contains, in order."""
    idx = list(range(len(samples)))
    if container == 'files':
        d = ctx.tmpdir()
        files = []
        for i, s in enumerate(samples):
            p = os.path.join(d, f'sample_{i}.pt')
            torch.save(s, p)
            files.append(p)
        return TimeSeriesDataset(d, files), idx
    ds = TimeSeriesDatasetInMemory([dict(s) for s in samples])
    if container == 'subset':
        n = int(ctx.rng.integers(1, len(samples) + 1))
        idx = [int(i) for i in ctx.rng.permutation(len(samples))[:n]]
        return torch.utils.data.Subset(ds, idx), idx
    return ds, idx
