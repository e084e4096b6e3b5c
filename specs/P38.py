"""Neural-network chip scoring and model training."""
import os
from time import time
import numpy as np
import tensorflow as tf
from keras.preprocessing import image
from keras.preprocessing.image import img_to_array
from keras.applications.vgg16 import VGG16
from keras.applications.vgg19 import VGG19
from keras.applications.resnet50 import ResNet50
from keras.callbacks import TensorBoard, ModelCheckpoint
from keras.layers import GlobalAveragePooling2D, Dense, Dropout
from keras.models import Model
from resippy.image_recognition.neural_net_model_scoring import keras_image_scoring as scoring
from resippy.image_recognition.neural_net_model_training import keras_model_training as training
from resippy.utils import file_utils
from resippy.utils.image_utils import image_chipper, image_utils

OPTS = {
    'scores': {'opaque': ['resippy.utils.image_utils.image_chipper.chip_entire_image_to_memory', 'resippy.utils.image_utils.image_utils.resize_image']},
    'scores_minmax': {'opaque': ['resippy.utils.image_utils.image_chipper.chip_entire_image_to_memory', 'resippy.utils.image_utils.image_utils.resize_image']},
    'scores_label': {'opaque': ['resippy.utils.image_utils.image_chipper.chip_entire_image_to_memory', 'resippy.utils.image_utils.image_utils.resize_image']},
    'scores_asked': {'opaque': ['resippy.utils.image_utils.image_chipper.chip_entire_image_to_memory', 'resippy.utils.image_utils.image_utils.resize_image']},
    'train': {'effects': r'fit_generator|compile|load_weights|write$|makedirs'},
    'train_plain': {'effects': r'fit_generator|compile|load_weights|write$|makedirs'},
}


def _rgb(im):
    if im.shape[2] == 4:
        return im[:, :, 0:3]
    return im


def _chips(im, nx, ny, px, py):
    return image_chipper.chip_entire_image_to_memory(_rgb(im), chip_nx_pixels=nx, chip_ny_pixels=ny, npix_overlap_x=int(nx * px), npix_overlap_y=int(ny * py))


def scores__code(im: Arr(3), m: Sym, nx: Scalar, ny: Scalar, tx: Scalar, ty: Scalar, px: Scalar, py: Scalar):
    return scoring.chip_and_score_image(im, m, nx, ny, tx, ty, px, py)


def scores__spec(im, m, nx, ny, tx, ty, px, py):
    """each chip without its alpha channel, resized to the network's input and scaled to 0..1, is scored in chip order; chip locations come along"""
    chips, locs = _chips(im, nx, ny, px, py)
    return np.squeeze(np.array([m.predict(np.expand_dims(img_to_array(image_utils.resize_image(c, ty, tx)), axis=0) / 255.0) for c in chips])), locs


def scores_minmax__code(im: Arr(3), m: Sym, nx: Scalar, ny: Scalar):
    return scoring.chip_and_score_image(im, m, nx, ny, normalize_method='min_max_per_chip')


def _minmax(c):
    c = np.expand_dims(img_to_array(image_utils.resize_image(c, 224, 224)), axis=0)
    return (c - np.min(c)) / (np.max(c) - np.min(c))


def scores_minmax__spec(im, m, nx, ny):
    """min/max scaling is per chip; the defaults are half overlap and 224 pixels"""
    chips, locs = _chips(im, nx, ny, 0.5, 0.5)
    return np.squeeze(np.array([m.predict(_minmax(c)) for c in chips])), locs


def scores_label__code(im: Arr(3), m: Sym, nx: Scalar, ny: Scalar, labels: Sym, thing: Str):
    return scoring.chip_and_score_image(im, m, nx, ny, labels=labels, thing_to_find=thing)


def scores_label__spec(im, m, nx, ny, labels, thing):
    """the column of the label asked for, one score per chip"""
    chips, locs = _chips(im, nx, ny, 0.5, 0.5)
    s = np.array([m.predict(np.expand_dims(img_to_array(image_utils.resize_image(c, 224, 224)), axis=0) / 255.0) for c in chips])
    return np.reshape(s, (len(chips), -1))[:, labels.index(thing)], locs


def scores_asked__code(im: Arr(3), m: Sym, nx: Scalar, ny: Scalar, labels: Opt, thing: Opt):
    return scoring.chip_and_score_image(im, m, nx, ny, labels=labels, thing_to_find=thing)


def scores_asked__spec(im, m, nx, ny, labels, thing):
    """one label's column when both the labels and the label are given (whatever they are), all the scores otherwise"""
    chips, locs = _chips(im, nx, ny, 0.5, 0.5)
    s = np.array([m.predict(np.expand_dims(img_to_array(image_utils.resize_image(c, 224, 224)), axis=0) / 255.0) for c in chips])
    if labels is None or thing is None:
        return np.squeeze(s), locs
    return np.reshape(s, (len(chips), -1))[:, labels.index(thing)], locs


def generators__code(n: Scalar, t: Str, v: Str, b: Scalar, r: Scalar, h: Sym, f: Sym):
    return training.setup_train_and_val_image_generators(n, t, v, b, r, h, f)


def generators__spec(n, t, v, b, r, h, f):
    """flips augment the training images only; both sets share size, batch size and rescaling"""
    a = image.ImageDataGenerator(rescale=r, horizontal_flip=h, vertical_flip=f).flow_from_directory(t, target_size=(n, n), batch_size=b, class_mode='categorical')
    c = image.ImageDataGenerator(rescale=r).flow_from_directory(v, target_size=(n, n), batch_size=b, class_mode='categorical')
    return a, c


def generators_default__code(n: Scalar, t: Str, v: Str):
    return training.setup_train_and_val_image_generators(n, t, v)


def generators_default__spec(n, t, v):
    """8-bit images are rescaled to 0..1, ten at a time, without flips"""
    a = image.ImageDataGenerator(rescale=1.0 / 255, horizontal_flip=False, vertical_flip=False).flow_from_directory(t, target_size=(n, n), batch_size=10, class_mode='categorical')
    c = image.ImageDataGenerator(rescale=1.0 / 255).flow_from_directory(v, target_size=(n, n), batch_size=10, class_mode='categorical')
    return a, c


def load__code(w: Str, t: Sym):
    return training.load_vgg16_model(w, t), training.load_vgg19_model(w, t), training.load_resnet50_model(w, t), training.load_vgg16_model(w)


def load__spec(w, t):
    """the network named, with the given weights"""
    return VGG16(weights=w, include_top=t), VGG19(weights=w, include_top=t), ResNet50(weights=w, include_top=t), VGG16(weights=w, include_top=True)


def head__code(m: Sym, n: Scalar, d: Scalar, k: Scalar):
    return training.create_final_dense_softmax_layer(m, n, d, k), training.create_final_dense_softmax_layer(m, n)


def _head(m, n, d, k):
    return Dense(n, activation='softmax')(Dropout(d)(GlobalAveragePooling2D()(Dense(k)(m.output))))


def head__spec(m, n, d, k):
    """dense, global pooling, dropout and a softmax over the classes"""
    return _head(m, n, d, k), _head(m, n, 0.2, 128)


def indices__code(g: Sym):
    return training.get_class_indices(g)


def indices__spec(g):
    """the generator's own class numbering"""
    return g.class_indices


def _run(model, t, v, out, fn, n, loss, opt, metrics):
    log = os.path.join(os.path.join(out, 'logs'), '{}'.format(time()))
    file_utils.make_dir_if_not_exists(log)
    board = TensorBoard(log_dir=log)
    file_utils.write_text_list_to_file(sorted(list(t.class_indices.keys())), os.path.join(out, 'labels.txt'))
    check = ModelCheckpoint(os.path.join(out, fn), monitor='val_loss', verbose=1, save_best_only=True, save_weights_only=False, mode='min', period=1)
    model.compile(loss=loss, optimizer=opt, metrics=metrics)
    model.fit_generator(t, steps_per_epoch=len(t.filenames) / t.batch_size, epochs=n, callbacks=[check, board], validation_data=v,
                        validation_steps=len(v.filenames) / v.batch_size)


def train__code(b: Sym, t: Sym, v: Sym, out: Str, h: Sym, w: Str, fn: Str, n: Scalar, loss: Str, opt: Sym, metrics: Sym):
    training.train_model(b, t, v, out, h, w, fn, n, loss, opt, metrics)


def train__spec(b, t, v, out, h, w, fn, n, loss, opt, metrics):
    """labels are listed in class order; the given head, weights, loss, optimizer, metrics and epochs are used; the best model is kept in the named file"""
    model = Model(inputs=b.input, outputs=h)
    model.load_weights(w)
    _run(model, t, v, out, fn, n, loss, opt, metrics)


def train_plain__code(b: Sym, t: Sym, v: Sym, out: Str, loss: Str, opt: Sym, metrics: Sym):
    training.train_model(b, t, v, out, loss=loss, optimizer=opt, metrics=metrics)


def train_plain__spec(b, t, v, out, loss, opt, metrics):
    """without a head the given model is trained from the weights it has"""
    _run(b, t, v, out, 'trained_model.h5', 20, loss, opt, metrics)


class _Layer(object):
    def __init__(self):
        self.trainable = None


class _Net(object):
    def __init__(self, layers):
        self.layers = layers


def freeze__code(a: Sym, b: Sym):
    m, n = _Net([_Layer(), _Layer(), _Layer()]), _Net([_Layer(), _Layer()])
    training.freeze_model_layers(m)
    training.unfreeze_model_layers(n)
    r = [x.trainable for x in m.layers], [x.trainable for x in n.layers]
    training.unfreeze_model_layers(m)
    training.freeze_model_layers(n)
    return r, [x.trainable for x in m.layers], [x.trainable for x in n.layers]


def freeze__spec(a, b):
    """freezing stops every layer of the model from training, unfreezing lets every layer train"""
    return ([False, False, False], [True, True]), [True, True, True], [False, False]


INCLUDE = ['P22.windows', 'P22.gray', 'P22.inside', 'P22.bands', 'P22.one_band', 'P22.grid', 'P22.grid_bounds', 'P34.resize', 'P34.normalize']
