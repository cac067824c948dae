from . import circular, gaussian, gmm, matrix, training, phrase, trainingset, hmm, hmmtrain, attribute, models, copies, kmeans
