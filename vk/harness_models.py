'''
A kind of model with nothing to compute: it remembers its parameters and its training series, and its forecasts tell
both. It fails for some series. Imported while a case runs only (it needs the code under test).
'''
import numpy as np

from spta.model.base import ModelRegion
from spta.model.train import ModelTrainer
from spta.region.spatial import SpatialRegion

from .props import m02


class HarnessModel(object):
    def __init__(self, params, series):
        self.params = params
        self.series = tuple(float(v) for v in series)


class HarnessModels(ModelRegion):
    def forecast_from_model(self, model_at_point, forecast_len, value_at_point, point):
        return m02.expected_forecast(model_at_point.params, model_at_point.series, forecast_len)

    def instance(self, model_numpy_array):
        return HarnessModels(model_numpy_array)


class HarnessTrainer(ModelTrainer):
    '''calls: the series it was asked to train with'''

    def __init__(self, rule, calls, refit=False, **params):
        super(HarnessTrainer, self).__init__(**params)
        self.rule = rule
        self.calls = calls
        self.refit = refit

    def training_function(self, model_params, training_series):
        if model_params is None:
            return None
        self.calls.append(tuple(float(v) for v in training_series))
        if m02.fails(self.rule, training_series):
            return None
        return HarnessModel(model_params, training_series)

    def create_refitter(self, model_region):
        '''Like an automatic search: what training found is used when refitting.'''
        if not self.refit:
            return self
        found = np.empty(model_region.as_numpy.shape, dtype=object)
        for point, model in model_region:
            if model is not None:
                found[point.x, point.y] = model.params + len(model.series)
        return HarnessTrainer(self.rule, self.calls, model_params_region=SpatialRegion(found))

    def create_model_region(self, numpy_model_array):
        models = HarnessModels(numpy_model_array)
        models.missing_count = self.missing_count
        return models
