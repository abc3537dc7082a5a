'''A stand-in for the dataset: the cached copy of an interval of years, in the current (scratch) directory.'''
import os

import numpy as np


def install(data, metadata):
    '''
    data is what the rectangle of the metadata has to contain; the rest of the cached interval is filled
    with other values. The time length is whatever data has: cached copies are not cut again.
    '''
    from spta.dataset import temp_brazil
    os.makedirs('raw', exist_ok=True)
    rectangle = metadata.region
    whole = -1000.0 - np.arange(float(data.shape[0] * rectangle.x2 * rectangle.y2)).reshape(
        data.shape[0], rectangle.x2, rectangle.y2)
    whole[:, rectangle.x1:rectangle.x2, rectangle.y1:rectangle.y2] = data
    temp_brazil.save_dataset_interval(whole, temp_brazil.DATASET_NAME, metadata.year_start, metadata.year_end,
                                      metadata.spd)
